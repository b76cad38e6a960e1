# Where the libraries are (nothing is fetched).
first() { ls $1 2>/dev/null | head -1; }
LIBS=/opt/veriftools/java
FREEMARKER=$(first "/root/.gradle/caches/modules-2/files-2.1/org.freemarker/freemarker/2.3.32/*/freemarker-2.3.32.jar")
SPOTBUGS=$(first "/root/.gradle/caches/modules-2/files-2.1/com.github.spotbugs/spotbugs-annotations/4.7.3/*/spotbugs-annotations-4.7.3.jar")
ENGINE_CP=$LIBS/z3/z3-turnkey-4.14.1.jar:$LIBS/z3/turnkey-support-1.0.0.jar:$LIBS/z3/jspecify-1.0.0.jar
ENGINE_CP=$ENGINE_CP:$LIBS/bytecode/asm-9.7.1.jar:$LIBS/bytecode/asm-tree-9.7.1.jar:$LIBS/bytecode/asm-analysis-9.7.1.jar:$FREEMARKER
