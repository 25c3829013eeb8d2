#!/bin/bash
# tlc.sh METADIR args... : TLC with its state directory outside the source tree
MD=$1; shift
exec java ${TLC_JAVA_OPTS:--XX:+UseParallelGC -Xmx4g -Xss16m} -cp "${FEM_CLASSES:+$FEM_CLASSES:}/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar" tlc2.TLC -metadir "$MD" -noGenerateSpecTE "$@"
