#!/bin/bash
# Rewrites the table of seeded changes in DESIGN.md.
cd "$(dirname "$0")/.." || exit 1
sed '/^<!-- seeds -->$/,$d' DESIGN.md > /tmp/design.new
{ echo '<!-- seeds -->'; echo '| property (caught by its quick check) | change | needs | breaks |'; echo '|---|---|---|---|'; python3 tools/seedtable.py | sort; } >> /tmp/design.new
mv /tmp/design.new DESIGN.md
