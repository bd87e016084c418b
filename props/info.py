import os
REPO = os.environ.get('VERIF_REPO', '/repo')
