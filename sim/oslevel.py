"""OS-level seam for code that does real file I/O in a scratch directory.

Audit events fire before every file-system call of the interpreter, however
the code spells it (os, pathlib, shutil, glob, builtins.open), so they are the
place where the simulator switches tasks, injects errors and crashes.
"""

import errno
import io
import os
import sys

from sim import core

EVENTS = {
    'open', 'os.rename', 'os.remove', 'os.mkdir', 'os.rmdir', 'os.listdir',
    'os.scandir', 'os.link', 'os.symlink', 'os.truncate', 'shutil.copyfile',
    'shutil.move', 'shutil.rmtree', 'glob.glob', 'os.chmod', 'os.utime',
    'os.sendfile',
}

_policy = None  # fn(event, args) -> None, may raise or crash
_installed = False
_busy = False


def set_policy(fn):
  global _policy
  _policy = fn


def _hook(event, args):
  if _policy is None or event not in EVENTS:
    return
  if core.current_task() is None:
    return
  _policy(event, args)


_real_listdir = os.listdir


def _listdir(path='.'):
  return sorted(_real_listdir(path))


def install():
  global _installed
  if not _installed:
    _installed = True
    sys.addaudithook(_hook)
    os.listdir = _listdir
