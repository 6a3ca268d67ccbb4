"""Records cases.  stdin: one JSON case per line; stdout: one JSON trace per line."""
import json, os, sys, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    kind = sys.argv[1]
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    mod = __import__('rec_' + kind)
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)                        # whatever the code prints goes to stderr
    import rt
    rt.quiet()
    hangs = 0
    for line in sys.stdin:
        case = json.loads(line)
        tr = mod.record(case)
        out.write(json.dumps(tr) + '\n')
        out.flush()
        if any(e.get('out') == 'hang' for e in tr['events']):
            hangs += 1
            if hangs == 2:
                break


main()
