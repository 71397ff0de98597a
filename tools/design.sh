#!/bin/sh
# rewrites the table at the end of DESIGN.md
cd "$(dirname "$0")/.." || exit 1
sed -i '/^| planted bug /,$d' DESIGN.md
python3 tools/seeded_table.py >> DESIGN.md
