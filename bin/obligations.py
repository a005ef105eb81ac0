"""Table of obligations: which contracts decide which property."""
import os, glob, json

OBS, PROPS, CASES = [], {}, {}
TRUSTED_COMMON = [
    'CBMC 6.11 (goto-cc front end, goto-instrument --dfcc contract instrumentation, symbolic execution) and the SAT/SMT back ends named per group',
    'x86-64 Linux LP64 data model; gcc/clang compile the same text the front end reads (configuration macros as in /opt/vp/build.sh)',
    'bin/vp.py moving each DRPM_LOOP(...) contract behind the header of the loop it precedes',
]


def ob(id, props, src, harness, **kw):
    kw.update(id=id, props=props.replace(',', ' ').split(), src=src, harness=harness)
    kw.setdefault('solvers', ['sat', 'cvc5'])
    OBS.append(kw)


def load(name):
    exec(compile(open(os.path.dirname(os.path.abspath(__file__)) + '/ob_' + name + '.py').read(), name, 'exec'), globals())


for f in sorted(glob.glob(os.path.dirname(os.path.abspath(__file__)) + '/ob_*.py')):
    load(os.path.basename(f)[3:-3])

KNOWN = json.load(open(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/known_findings.json'))['findings']
