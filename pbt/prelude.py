"""Preparation that some checks need: PREPARE once before the workers of a check
are started, PRELUDE in a worker before the code under test is imported."""
from pbt import native, standin

PREPARE = dict(C28=native.prepare)
PRELUDE = dict(C26=standin.install, C28=native.install)
