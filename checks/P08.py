"""P08: a setter that throws leaves the URL unchanged."""
import editrun


def main():
    sl = [(0, 'none'), (1, 'none')] + [(sc, (ui, k)) for sc, ui, k in ((0, 0, 'name'), (1, 0, 'empty'), (0, 1, 'name'), (1, 1, 'empty'), (1, 2, 'name'), (0, 2, 'empty'))]
    editrun.run('P08', ('throw',), editrun.plan(sl, slack=editrun.SLACK[:2]), 'at every exceptional exit (invalid argument or failed allocation, any allocation): text and every observer '
                'equal those of the URL before the call')
