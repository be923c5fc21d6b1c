#!/bin/bash
# mkdemo.sh ID KIND < demo.cpp|demo.py : writes seeded/ID/demo.sh, the program and the shim it needs. KIND: light cache system pipeline py
set -e
D=/verif/seeded/$1; K=$2; mkdir -p "$D"
LIGHT="Basisnames ConfParser GreenTensor Hamiltonianmatrix QuantumDefect StateOld WignerD Wavefunction"
CACHE="QuantumDefect Wavefunction WignerD State StateOld MatrixElementCache"
SYSTEM="$CACHE SystemBase SystemOne SystemTwo GreenTensor PerturbativeInteraction"
FULL="$LIGHT MatrixElementCache MatrixElements State SystemBase SystemOne SystemTwo PerturbativeInteraction HamiltonianOne HamiltonianTwo Interface"
case $K in light) U="$LIGHT";; cache) U="$CACHE";; system) U="$SYSTEM";; pipeline) U="$FULL";; py) U="";; esac
if [ $K = py ]; then
  cat > "$D/demo.py"
  cat > "$D/demo.sh" <<'S'
#!/bin/bash
# Runs demo.py against the Python sources in the working tree of the repository (cwd).
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1
timeout 200 python3-vt "$here/demo.py" "$PWD"
S
else
  cat > "$D/demo.cpp"
  [ $K = pipeline ] && cp /verif/tools/demo_run.hpp "$D/shim/run.hpp" 2>/dev/null || [ $K != pipeline ] || { mkdir -p "$D/shim"; cp /verif/tools/demo_run.hpp "$D/shim/run.hpp"; }
  [ $K = light ] || { mkdir -p "$D/shim/wignerSymbols"; cp /verif/seeded/s06_state_order/shim/wignerSymbols/* "$D/shim/wignerSymbols/"; }
  cat > "$D/demo.sh" <<S
#!/bin/bash
# Compiles demo.cpp with the sources of the working tree of the repository (cwd) and runs it in a scratch folder.
set -e
here="\$(cd "\$(dirname "\$0")" && pwd)"
out="\$(mktemp -d)"
trap 'rm -rf "\$out"' EXIT
flags=(-std=c++17 -O1 -w -fopenmp -DNDEBUG -DWITH_GSL -DEIGEN_USE_BLAS -DEIGEN_USE_LAPACKE -DFMT_HEADER_ONLY=1
  '-Dlapack_complex_double=std::complex<double>' '-Dlapack_complex_float=std::complex<float>'
  -I pairinteraction -I _build/pairinteraction -I "\$here/shim" -isystem /usr/include/eigen3)
for u in $U; do echo "pairinteraction/\$u.cpp \$out/\$u.o"; done > "\$out/list"
echo "\$here/demo.cpp \$out/demo.o" >> "\$out/list"
xargs -P 8 -L 1 sh -c 'src="\$0"; o="\$1"; exec g++ "\$@"' < /dev/null > /dev/null 2>&1 || true
pids=()
while read -r src obj; do g++ "\${flags[@]}" -c "\$src" -o "\$obj" & pids+=(\$!); done < "\$out/list"
for p in "\${pids[@]}"; do wait "\$p"; done
g++ -fopenmp "\$out"/*.o -o "\$out/demo" -lopenblas -llapacke -lsqlite3 -lgsl -lgslcblas -lstdc++fs -lpthread
cd "\$out"
timeout 200 ./demo
S
  sed -i '/^xargs/d' "$D/demo.sh"
fi
chmod +x "$D/demo.sh"
