from vf.props.c09 import Scores


class C10(Scores):
    ID = 'C10'
    RULE = ('a random history on a cosine text index, then term, phrase, glob '
            'and boolean queries; non-trivial when a query had to score two '
            'or more documents')
    USE = ('cosine',)
    FILES = ('text/cosineindex.py', 'text/baseindex.py', 'text/textindex.py')
    QUICK, THOROUGH = 5000, 125000
    REQUIRE = {'scores compared': 2000, 'op c': 20, 'op u': 100}


PROP = C10()
