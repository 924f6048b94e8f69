# mk <id> <prop> <needs> <what> <template>   (edits json on stdin)
mk() { (cd /verif && python3 tools/mkbug.py "$1" "$2" "$3" "$4" && cp tools/demo/$5.sh seeded/$1/demo.sh && chmod +x seeded/$1/demo.sh); }
