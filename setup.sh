#!/bin/bash
# Sanity: the vendored Hypothesis and the code under test can be imported (nothing to build: pure Python).
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=/repo:vendor /opt/venv/bin/python -W ignore -c "
import hypothesis, numpy, scipy, h5py, yaml, hftools.dataset, hftools.file_formats
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__)"
