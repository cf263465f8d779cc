# typeids.sh REPO SRC OUT BUILDDIR: the programs made of several binaries, in four configurations, and their driver
set -e
repo=$1; src=$2; out=$3; h=$(cd "$(dirname "$0")" && pwd)
d=$4/typeids.d
mkdir -p "$d"
d=$(cd "$d" && pwd)
cat > "$d/Makefile" <<M
H=$h
REPO=$repo
all: OUT CFGS
OUT:
	g++ -std=c++20 -O1 -w -DDIR='"$d"' $src -o $out
CFGS: gcc.all gccH.all clang.all clangH.all
define CFG
\$(1)/bin_%.o:
	\$(2) -std=c++20 -O1 -w -fPIC -I\$(REPO)/include \$\$(DEF_\$\$*) -DNAME=\$\$* -c \$(H)/typeids_bin.cpp -o \$\$@
\$(1)/siof%.o:
	\$(2) -std=c++20 -O1 -w -I\$(REPO)/include -DPART=\$\$* -c \$(H)/typeids_siof.cpp -o \$\$@
\$(1).all: \$(1)/bin_exeh.o \$(1)/bin_exec.o \$(1)/bin_host.o \$(1)/bin_ca.o \$(1)/bin_cb.o \$(1)/bin_cc.o \$(1)/bin_cd.o \$(1)/siof1.o \$(1)/siof2.o
	mkdir -p \$(1)/free \$(1)/linked
	\$(2) -shared -o \$(1)/linked/libhost.so \$(1)/bin_host.o
	for x in ca cb cc cd; do \$(2) -shared -o \$(1)/free/lib\$\$\$\${x}.so \$(1)/bin_\$\$\$\$x.o; \$(2) -shared -o \$(1)/linked/lib\$\$\$\$x.so \$(1)/bin_\$\$\$\$x.o -L\$(1)/linked -lhost -Wl,-rpath,$d/\$(1)/linked; done
	\$(2) -std=c++20 -O1 -w -rdynamic -DSELF=exeh_api \$(H)/typeids_main.cpp \$(1)/bin_exeh.o -o \$(1)/exe_is_host -ldl
	\$(2) -std=c++20 -O1 -w -rdynamic -DSELF=exec_api -DLINKED=host_api \$(H)/typeids_main.cpp \$(1)/bin_exec.o -o \$(1)/exe_is_client -L\$(1)/linked -lhost -Wl,-rpath,$d/\$(1)/linked -ldl
	\$(2) -std=c++20 -O1 -w \$(H)/typeids_main.cpp -o \$(1)/exe_is_neutral -ldl
	\$(2) -o \$(1)/siof12 \$(1)/siof1.o \$(1)/siof2.o -lpthread
	\$(2) -o \$(1)/siof21 \$(1)/siof2.o \$(1)/siof1.o -lpthread
endef
DEF_exeh=-DCO_ECS_HOST -DORDER=0 -DOWN=own_e
DEF_exec=-DCO_ECS_CLIENT -DORDER=4 -DOWN=own_e
DEF_host=-DCO_ECS_HOST -DORDER=0 -DOWN=own_h
DEF_ca=-DCO_ECS_CLIENT -DORDER=1 -DOWN=own_a
DEF_cb=-DCO_ECS_CLIENT -DORDER=2 -DOWN=own_b
DEF_cc=-DCO_ECS_CLIENT -DORDER=3 -DOWN=own_c -DFEW
DEF_cd=-DCO_ECS_CLIENT -DORDER=5
\$(foreach c,gcc clang,\$(eval \$(call CFG,\$(c),\$(subst gcc,g++,\$(subst clang,clang++,\$(c))))))
\$(foreach c,gcc clang,\$(eval \$(call CFG,\$(c)H,\$(subst gcc,g++,\$(subst clang,clang++,\$(c))) -fvisibility=hidden)))
M
cd "$d"
for c in gcc gccH clang clangH; do rm -rf "$d/$c"; mkdir "$d/$c"; done
make -s -j8 all
