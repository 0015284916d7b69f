"""Which proofs decide which property."""
import os

HERE = os.path.dirname(os.path.abspath(__file__))

COMMON = [
    'cbmc 6.11 (goto-cc, goto-instrument --dfcc, cbmc and its SAT back end) '
    'is trusted',
    'x86_64 data model of the installed compiler; machine integers are bit '
    'precise, nothing is treated as mathematical',
    'memory allocation succeeds or the process is terminated',
    'the system headers of this sandbox; compiler optimisations preserve '
    'the semantics goto-cc assigns to the source',
]

PROPS = {
    'C01': {'proofs': ['inplace', 'output:fileformat', 'fs:tmptemplate']},
    'C02': {'proofs': ['output']},
    'C03': {'proofs': ['buffer']},
    'C04': {'proofs': ['arena']},
    'C05': {'proofs': ['vector']},
    'C06': {'proofs': ['arith']},
    'C07': {'proofs': ['width']},
    'C08': {'proofs': ['lexer']},
    'C09': {'proofs': ['diff']},
    'C10': {'proofs': ['comment']},
    'C11': {'proofs': ['clang']},
    'C12': {'proofs': ['doc', 'format']},
    'C13': {'proofs': ['fs:searchpath']},
    'C15': {'proofs': ['include', 'category', 'token']},
    'C16': {'proofs': ['align']},
}


def known(pid):
    """Known findings: lines 'finding: property=<id> <what fails>'."""
    out = []
    path = os.path.join(os.path.dirname(HERE), 'known-findings.txt')
    try:
        for line in open(path):
            if line.startswith('finding: property=%s ' % pid):
                out.append('KNOWN-FINDING: ' + line[len('finding: '):].strip())
    except OSError:
        pass
    return out
