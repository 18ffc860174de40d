"""Lazily extracted program facts shared by the rules of one check run."""
from engine import extract


class Context:
    def __init__(self, repo=None):
        self.repo = repo or extract.REPO
        self._d = None
        self._prog = None
        self.used = set()
        self.tier = 'quick'

    @property
    def dump(self):
        if self._d is None:
            self._d = extract.dump(self.repo)
        return self._d

    def analysed(self):
        if self._d is None:
            return {}
        d = self._d
        loc = [k for k, f in d['fns'].items() if f.get('local', True)]
        return {'local_functions_in_dump': len(loc), 'adts': len(d['adts']), 'impls': len(d['impls']),
                'functions_analysed': sorted(self.used)[:400]}
