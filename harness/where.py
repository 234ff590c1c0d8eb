"""VERIF_REPO: look at another copy of the code than /repo (for trying changes out)."""
import os

if os.environ.get('VERIF_REPO'):
    import amazon
    amazon.__path__[:] = [os.path.join(os.environ['VERIF_REPO'], 'amazon')]
