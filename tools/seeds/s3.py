DB = "rubin_sim/maf/db/results_db.py"
VS = "rubin_sim/sim_archive/vseqmetadata.py"
STUB = '''import psycopg2.sql as sql
from uuid import uuid4
from rubin_sim.sim_archive.vseqmetadata import VisitSequenceArchiveMetadata as V

calls = []


def flat(q):
    if isinstance(q, sql.Composed):
        return "".join(flat(x) for x in q.seq)
    if isinstance(q, sql.SQL):
        return q.string
    if isinstance(q, sql.Identifier):
        return ".".join(q.strings)
    if isinstance(q, sql.Placeholder):
        return ":" + q.name
    return str(q)


class Fake(V):
    # no server here: what would be sent is recorded
    def __init__(self):
        self.metadata_db_schema = "test"

    def query(self, query, data={}, commit=False, return_result=True):
        calls.append((" ".join(flat(query).split()), dict(data), commit))
        return ((1,),)

    def _find_visitseq_table(self, visitseq_uuid):
        return "visitseq"


v, u = Fake(), uuid4()
'''
SEEDS = [
 dict(id="s22-summary-without-join", property="P19",
  edits=[(DB, '''        query = self.session.query(MetricRow, SummaryStatRow).filter(
            MetricRow.metric_id == SummaryStatRow.metric_id
        )
        if metric_id is not None:
            query = query.filter(MetricRow.metric_id.in_(metric_id))
''', '''        query = self.session.query(MetricRow, SummaryStatRow)
        if metric_id is not None:
            query = query.filter(MetricRow.metric_id == SummaryStatRow.metric_id)
            query = query.filter(MetricRow.metric_id.in_(metric_id))
''')],
  needs="summary statistics of more than one metric, asked for without a list of metrics",
  breaks="every statistic is reported for every metric",
  demo='''import tempfile
from rubin_sim.maf.db import ResultsDb
with tempfile.TemporaryDirectory() as d:
    r = ResultsDb(out_dir=d)
    for i, name in enumerate(["a", "b"]):
        k = r.update_metric(name, "s", "run", "", "lab", "f")
        r.update_summary_stat(k, "Mean", float(i))
    got = r.get_summary_stats()
    assert len(got) == 2, got
'''),
 dict(id="s23-metric-id-run", property="P19",
  edits=[(DB, '''            query = query.filter(MetricRow.metric_info_label == metric_info_label)
        if run_name is not None:
            query = query.filter(MetricRow.run_name == run_name)
''', '''            query = query.filter(MetricRow.metric_info_label == metric_info_label)
        elif run_name is not None:
            query = query.filter(MetricRow.run_name == run_name)
''')],
  needs="a label and a run name given together",
  breaks="metrics of other runs with the same label are found as well",
  demo='''import tempfile
from rubin_sim.maf.db import ResultsDb
with tempfile.TemporaryDirectory() as d:
    r = ResultsDb(out_dir=d)
    for run in ["a", "b"]:
        r.update_metric("m", "s", run, "", "lab", "f")
    got = r.get_metric_id("m", metric_info_label="lab", run_name="a")
    assert len(got) == 1, got
'''),
 dict(id="s25-downgrade-plots", property="P19",
  edits=[(DB, '''            "plotId": "plot_id",
            "metricId": "metric_id",
            "plotType": "plot_type",
            "plotFile": "plot_file",
''', '''            "plotId": "plot_id",
            "metricId": "metric_id",
            "plotFile": "plot_type",
            "plotType": "plot_file",
''')],
  needs="a results database taken back to the old layout and read there",
  breaks="the old layout calls the plot's file its type, and the type its file",
  demo='''import sqlite3
import tempfile
from rubin_sim.maf.db import ResultsDb
with tempfile.TemporaryDirectory() as d:
    r = ResultsDb(out_dir=d)
    k = r.update_metric("m", "s", "run", "", "lab", "f")
    r.update_plot(k, "SkyMap", "m.pdf")
    r.downgrade_database()
    c = sqlite3.connect(r.database)
    got = c.execute("select plotType, plotFile from plots").fetchall()
    c.close()
    assert got == [("SkyMap", "m.pdf")], got
'''),
]
