"""tools/cover.py CHECK [runs per scenario] : lines of the package executed by runs of one check -> /tmp/cover/CHECK.json (a tool for the author; no check uses it)"""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ.update(PYTHONUTF8="1", TZ="UTC")
pid, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 150
hit = {}
mon = sys.monitoring
mon.use_tool_id(1, "cover")


def line(code, no):
    f = code.co_filename
    if "/DLMS_SPODES/" in f:
        hit.setdefault(f.split("/DLMS_SPODES/")[1], set()).add(no)
    return mon.DISABLE


mon.register_callback(1, mon.events.LINE, line)
mon.set_events(1, mon.events.LINE)
from dst import engine
chk = importlib.import_module(f"dst.props.{pid.lower()}").CHECK
chk.setup()
for s in chk.scenarios:
    for i in range(n):
        engine.run_once(s, index=i, seed=f"1/{pid}/{s.name}/{i}", known=frozenset(["invoke-priority"]))
os.makedirs("/tmp/cover", exist_ok=True)
json.dump({k: sorted(v) for k, v in hit.items()}, open(f"/tmp/cover/{pid}.json", "w"))
