"""P07: a successful setter changes exactly its component, as specified, and nothing else."""
import editrun


def main():
    editrun.run('P07', ('effect',), editrun.plan(editrun.CORE), 'at every normal exit: the text equals the expected concatenation of old parts and '
                'argument cell by cell, and every observer equals the affine expression of the expected URL')
