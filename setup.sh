# Builds the exporter (offline, from committed sources).
cd "$(dirname "${BASH_SOURCE[0]}")" && mkdir -p build evidence && python3 -c "
import sys; sys.path.insert(0, 'analysis'); import ir; print(ir.exporter())"
