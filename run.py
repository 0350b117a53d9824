import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'replay':
        sys.path.insert(1, '/repo')
        from sx import runner
        runner.replay_main(sys.argv[2])
        sys.exit(0)
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    from sx import runner
    if cmd == 'check':
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get('VERIF_TIER', 'quick')
        sys.exit(runner.check(sys.argv[2], tier))
    if cmd == 'show':
        sys.exit(runner.show(sys.argv[2]))
    sys.exit(3)
