"""where the tools and the code under test are found"""
import sys, os, glob
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('BLOSCPACK_REPO', '/repo')
if VERIF not in sys.path:
    sys.path.insert(0, VERIF)
if REPO not in sys.path:
    sys.path.insert(0, REPO)
for d in glob.glob('/opt/veriftools/pyvenv/lib/python3.12/site-packages'):
    if d not in sys.path:
        sys.path.append(d)
