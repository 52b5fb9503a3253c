#!/usr/bin/env python3
"""python3 run.py <property id> [--tier quick|thorough]  --  decide one property from the sources in /repo"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def main():
  args = [a for a in sys.argv[1:] if not a.startswith('--')]
  if '--thorough' in sys.argv:
    os.environ['VERIF_TIER'] = 'thorough'
  if '--quick' in sys.argv:
    os.environ['VERIF_TIER'] = 'quick'
  from engine.dice import AnchorMissing
  pid = args[0].upper()
  mod = importlib.import_module('checks.' + pid.lower())
  try:
    return mod.main()
  except AnchorMissing as e:
    print(f'{pid}: cannot anchor the analysis: {e}')
    return 2


if __name__ == '__main__':
  import threading
  threading.stack_size(512 * 1024 * 1024)
  rc = []

  def go():
    try:
      rc.append(main())
    except SystemExit as e:
      rc.append(e.code)
    except BaseException:
      import traceback
      traceback.print_exc()
      rc.append(2)
  t = threading.Thread(target=go)
  t.start()
  t.join()
  sys.stdout.flush()
  os._exit(rc[0] if rc else 2)
