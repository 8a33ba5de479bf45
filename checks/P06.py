"""P06: every setter accepts exactly the arguments its part of the grammar allows."""
import editrun


def main():
    sl = [(0, 'none'), (1, 'none'), (0, (0, 'name')), (1, (2, 'name')), (0, (1, 'empty'))]
    p = editrun.plan(sl, slack=[])
    if not editrun.thorough():
        p = [j for j in p if j[0] != (9,)] + [((9,), (0, 'none'), False, 'h_edit'), ((9,), (1, (1, 'name')), True, 'h_edit')]
    editrun.run('P06', ('accept',), p, 'at every exit of setter(arg): it returned normally iff the argument automaton ended in an accepting state')
