"""Dataflow and program-structure rules over the extracted program, by property."""
class Report(object):
    def __init__(self, pid):
        self.pid = pid; self.checked = 0; self.findings = []; self.undecided = []; self.samples = []
    def ok(self, what): self.checked += 1; self.samples.append(what)
    def bad(self, key, text, site, detail=''): self.checked += 1; self.findings.append((key, text, site, detail))
    def dunno(self, key, why): self.checked += 1; self.undecided.append((key, why))
from rules import headers, values
RULES = {'C27': [headers.selfcontained, headers.defined, headers.templates], 'C28': [values.flow, values.memory, values.ctors]}
