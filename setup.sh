#!/bin/bash
# Nothing to install: every check builds its own scratch copy of /repo.
exit 0
