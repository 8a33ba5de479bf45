"""P09: modifications are memory safe and keep the text null terminated."""
import editrun


def main():
    editrun.run('P09', ('nul',), editrun.plan(editrun.CORE), 'no reachable state of parse; setter; observers reads or writes outside its storage, reads indeterminate or '
                'released bytes, releases storage twice or with another size, fails an assertion or terminates; data()[size()] is null at every exit', faults=True)
