# sourced: J (JDK 21 bin), CP (analyser class path), CAFFEINE
J=/usr/lib/jvm/java-21-openjdk-amd64/bin
M2=/root/.gradle/caches/modules-2/files-2.1
CP=$(ls /opt/veriftools/java/bytecode/asm*.jar /opt/veriftools/java/bytecode/byte-buddy-1*.jar $M2/org.apache.maven/maven-artifact/*/*/maven-artifact-3.5.2.jar $M2/org.apache.commons/commons-lang3/*/*/commons-lang3-3.5.jar | tr '\n' ':')
CAFFEINE=$(ls $M2/com.github.ben-manes.caffeine/caffeine/*/*/caffeine-[0-9]*[0-9].jar | head -1)
CP=$CP:$(ls $M2/org.antlr/antlr4-runtime/*/*/antlr4-runtime-4*.jar | grep -v sources | head -1)
