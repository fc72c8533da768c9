#!/usr/bin/env python3
"""mkbug.py SPEC.py : writes seeded/<id>/ from a spec and checks it in a scratch copy of /repo.
A spec defines id, prop, edits=[(file, old, new)], needs, breaks, demo (C++ source), srcs (repo sources or libs), libs."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is not
D=$(cd "$(dirname "$0")"; pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
printf '#include <math.h>\\n#include <algorithm>\\n#include <boost/serialization/split_member.hpp>\\n' > $T/compat.h
g++ -std=gnu++14 -O1 -w -include $T/compat.h -DKENLM_MAX_ORDER=6 -DHAVE_CONFIG_H -I$R -I$R/_build %s -isystem /usr/include/eigen3 $D/demo.cc %s -o $T/demo || exit 3
cd $T; timeout 120 ./demo
'''
def main():
    for spec in sys.argv[1:]:
        bugs = []
        def bug(**k): bugs.append(k)
        exec(open(spec).read(), dict(bug=bug))
        for g in bugs: one(g)

def one(g):
    if 1:
        d = '%s/seeded/%s' % (V, g['id']); os.makedirs(d, exist_ok=True)
        S = '/tmp/bugsrc'
        if not os.path.exists(S):
            subprocess.check_call(['git', 'clone', '-q', '/repo', S])
        subprocess.check_call(['git', '-C', S, 'fetch', '-q', 'origin']); subprocess.check_call(['git', '-C', S, 'reset', '-q', '--hard', 'origin/HEAD'])
        for f, old, new in g['edits']:
            s = open(S + '/' + f).read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(S + '/' + f, 'w').write(s.replace(old, new))
        p = subprocess.check_output(['git', '-C', S, 'diff'], text=True); open(d + '/patch.diff', 'w').write(p)
        subprocess.check_call(['git', '-C', S, 'checkout', '-q', '--', '.'])
        json.dump(dict(property=g['prop'], needs=g['needs'], what_it_breaks=g['breaks']), open(d + '/meta.json', 'w'), indent=1)
        if 'demo' in g:
            open(d + '/demo.cc', 'w').write(g['demo'])
            inc = ' '.join('-I$R/%s' % x for x in ('decoder', 'utils', 'mteval', 'training/utils', 'training', 'klm', 'extractor', 'word-aligner', 'training/dpmert'))
            open(d + '/demo.sh', 'w').write(SH % (inc, ' '.join(('$R/' + x) if not x.startswith('-') else x for x in g['srcs'])))
        else: open(d + '/demo.sh', 'w').write(g['demo_sh'])
        os.chmod(d + '/demo.sh', 0o755)
        print('wrote', d)
if __name__ == '__main__': main()
