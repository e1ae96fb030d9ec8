"""run.py <PROPERTY> [--replay file] [--tier quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONHASHSEED", "0")
# the hook in /repo is enabled for every check; vpmon records what it sees when a check asks it to
os.environ["VANILLAPLUSJS_MONITOR"] = "vpmon"
import common
sys.exit(common.main(sys.argv[1], sys.argv[2:]))
