"""Property table: every property's text next to the jobs that decide it. tools/gen.py writes properties.jsonl and
MANIFEST.json from it."""
from vf.runner import Job, VERIF, REPO, BASE_FLAGS, ARCH  # noqa

CHECKS = {}
NOT_APPLICABLE = []

TECHNIQUE_SMC = ("stateless model checking of the real implementation: all schedules within a deviation bound under a "
                 "controlled scheduler with a happens-before race detector")
TECHNIQUE_SEQ = ("bounded exhaustive exploration of the real implementation: every input / operation sequence of a "
                 "finite domain executed and compared step by step with an independent reference model")


def prop(pid, title, statement, over, text, why, files, mech, jobs, note, technique=TECHNIQUE_SEQ, assumptions=(),
         **kw):
    assert pid not in CHECKS and len(title) <= 80, (pid, len(title))
    CHECKS[pid] = dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                       jobs=jobs, note=note, technique=technique, assumptions=list(assumptions), **kw)
