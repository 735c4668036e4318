"""
Path set-up: zounds is imported from the working tree (/repo), hypothesis from
the offline tools venv (appended last, so that it never shadows a package the
code under test uses).  The countbits extension is rebuilt in a scratch folder
whenever its sources differ from those of the binary that lies in the tree.
"""
import atexit
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HYPOTHESIS_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


class HarnessError(Exception):
    """something the check itself cannot cope with: never a violation"""


class CountbitsBuildError(Exception):
    pass


_scratch = []


def scratch_dir(prefix='zverif-'):
    d = tempfile.mkdtemp(prefix=prefix)
    _scratch.append((os.getpid(), d))
    return d


def remove_scratch(d):
    if os.path.basename(d).startswith('zverif-'):
        shutil.rmtree(d, ignore_errors=True)


@atexit.register
def _cleanup():
    for pid, d in _scratch:
        if pid == os.getpid():
            remove_scratch(d)


def _sources():
    return [
        os.path.join(REPO, p) for p in
        ('setup.py', 'zounds/__init__.py', 'zounds/nputil/countbits.pyx')]


def _prebuilt_is_current():
    h = hashlib.sha256()
    for p in _sources():
        with open(p, 'rb') as f:
            h.update(f.read())
    try:
        with open(os.path.join(REPO, 'build/.countbits.sha256')) as f:
            stamp = f.read().split()[0]
    except (OSError, IndexError):
        return False
    have_so = any(
        n.startswith('countbits.cpython-312') and n.endswith('.so')
        for n in os.listdir(REPO))
    return have_so and stamp == h.hexdigest()


def build_countbits():
    """returns a folder with a countbits built from the working tree, or None
    if the one in the tree is up to date"""
    if _prebuilt_is_current():
        return None
    d = scratch_dir()
    os.makedirs(os.path.join(d, 'zounds/nputil'))
    for p in _sources():
        shutil.copy(p, os.path.join(d, os.path.relpath(p, REPO)))
    shutil.copy(os.path.join(REPO, 'README.md'), d)
    # the packages setup.py names have to exist
    for root, dirs, files in os.walk(os.path.join(REPO, 'zounds')):
        rel = os.path.relpath(root, REPO)
        if '__pycache__' not in rel:
            os.makedirs(os.path.join(d, rel), exist_ok=True)
    r = subprocess.run(
        [sys.executable, 'setup.py', 'build_ext', '--inplace', '--force'],
        cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
    if r.returncode or not any(
            n.startswith('countbits.') and n.endswith('.so')
            for n in os.listdir(d)):
        raise HarnessError(
            'countbits does not build:\n' + r.stdout.decode()[-2000:])
    return d


def setup():
    sys.path = [p for p in sys.path if os.path.abspath(p) != REPO]
    sys.path.insert(0, REPO)
    if HYPOTHESIS_SITE not in sys.path:
        sys.path.append(HYPOTHESIS_SITE)
    d = build_countbits()
    if d is not None:
        sys.path.insert(0, d)
    import warnings
    warnings.simplefilter('ignore')
