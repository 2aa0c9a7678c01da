"""python main.py C01 : run the check of one property."""
import importlib
import os
import sys
import traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'checks'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import glob
import vp


def main(prop):
    d = os.path.join(vp.VERIF, 'checks')
    f = [os.path.basename(p)[:-3] for p in glob.glob(os.path.join(d, prop.lower() + '_*.py'))]
    if len(f) != 1:
        print('no check for', prop)
        return 2
    try:
        if not os.environ.get('VP_NOBUILD'):
            vp.build_repo()
        vp.load_library()
        R = vp.Run(prop)
        importlib.import_module(f[0]).run(R)
        return R.finish()
    except vp.MachineryError as exc:
        print('MACHINERY ERROR', exc)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
