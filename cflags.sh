CF="-std=c++17 -O1 -Xclang -disable-llvm-passes -fno-vectorize -emit-llvm -c -g1 -gno-column-info -w -include /verif/stubs/noextern.h -I/verif/stubs -I/verif/rt -I/verif/harness -I/repo"
