// reference definitions for diagnostics (P30)
#include "diagnostic/diagnostic.hpp"
#include <boost/lexical_cast.hpp>
using namespace schnek;
typedef std::string string;
typedef DiagnosticManager DM;
extern "C" {
// ---- file names
string w_name(DiagnosticInterface &d, int rank, int t) { return d.parsedFileName(rank, t); }
string r_name(DiagnosticInterface &d, int rank, int t)
{
  string s = d.fname;
  string r = boost::lexical_cast<string>(rank), c = boost::lexical_cast<string>(t);
  if (t < 0) c = "final";
  size_t i = s.find("#p");
  if (i != string::npos) s.replace(i, 2, r);
  i = s.find("#t");
  if (i != string::npos) s.replace(i, 2, c);
  return s;
}
string w_nameT(DiagnosticInterface &d, int rank, double t) { return d.parsedFileName(rank, t); }
string r_nameT(DiagnosticInterface &d, int rank, double t)
{
  string s = d.fname;
  string r = boost::lexical_cast<string>(rank), c = boost::lexical_cast<string>(t);
  size_t i = s.find("#p");
  if (i != string::npos) s.replace(i, 2, r);
  i = s.find("#t");
  if (i != string::npos) s.replace(i, 2, c);
  return s;
}
bool w_append(DiagnosticInterface &d) { return d.appending(); }
bool r_append(DiagnosticInterface &d) { return d.append != 0; }
// ---- schedule
void w_interval(IntervalDiagnostic &d, bool master, int rank, int t) { d.execute(master, rank, t); }
void r_interval(IntervalDiagnostic &d, bool master, int rank, int t)
{
  if (d.singleOut() && !master) return;
  if (t == 0 && d.append != 0) d.open(d.fname);
  if (t < 0 || t % d.interval == 0)
  {
    if (d.append == 0) d.open(d.parsedFileName(rank, t));
    d.write();
    if (d.append == 0) d.close();
  }
}
void w_delta(DeltaTimeDiagnostic &d, bool master, int rank, double t) { d.execute(master, rank, t); }
void r_delta(DeltaTimeDiagnostic &d, bool master, int rank, double t)
{
  if (d.singleOut() && !master) return;
  if (t == 0.0 && d.append != 0) d.open(d.fname);
  if (t >= d.nextOutput)
  {
    if (d.append == 0) d.open(d.parsedFileName(rank, d.count));
    d.write();
    if (d.append == 0) d.close();
    d.nextOutput = d.nextOutput + d.deltaTime;
    d.count = d.count + 1;
  }
}
int w_getInterval(IntervalDiagnostic &d) { return d.getInterval(); }
int r_getInterval(IntervalDiagnostic &d) { return d.interval; }
double w_next(DeltaTimeDiagnostic &d) { return d.getNextOutput(); }
double r_next(DeltaTimeDiagnostic &d) { return d.nextOutput; }
double w_dt(DeltaTimeDiagnostic &d) { return d.getDeltaTime(); }
double r_dt(DeltaTimeDiagnostic &d) { return d.deltaTime; }
// ---- parameters
void w_parI(DiagnosticInterface &d, BlockParameters &p) { d.DiagnosticInterface::initParameters(p); }
void r_parI(DiagnosticInterface &d, BlockParameters &p) { p.addParameter("file", &d.fname); p.addParameter("append", &d.append, 0); }
void w_parInt(IntervalDiagnostic &d, BlockParameters &p) { d.IntervalDiagnostic::initParameters(p); }
void r_parInt(IntervalDiagnostic &d, BlockParameters &p) { d.DiagnosticInterface::initParameters(p); p.addParameter("interval", &d.interval, 100); }
void w_parDt(DeltaTimeDiagnostic &d, BlockParameters &p) { d.DeltaTimeDiagnostic::initParameters(p); }
void r_parDt(DeltaTimeDiagnostic &d, BlockParameters &p) { d.DiagnosticInterface::initParameters(p); p.addParameter("deltaTime", &d.deltaTime, 1.0); p.addParameter("delay", &d.nextOutput, 0.0); }
// ---- manager
void w_mgr(DM &m) { m.execute(); }
void r_mgr(DM &m)
{
  if ((m.usePhysicalTime ? m.physicalTime == 0 : m.timecounter == 0) || (m.timecounter == 0 && !m.intervalDiags.empty()) || (m.physicalTime == 0 && !m.deltaTimeDiags.empty()))
    throw VariableNotInitialisedException("");
  for (IntervalDiagnostic *d: m.intervalDiags) d->execute(m.master, m.rank, *m.timecounter);
  for (DeltaTimeDiagnostic *d: m.deltaTimeDiags) d->execute(m.master, m.rank, *m.physicalTime);
}
double w_adjust(DM &m, double dt) { return m.adjustDeltaT(dt); }
double r_adjust(DM &m, double dt)
{
  if (m.physicalTime == 0 && !m.deltaTimeDiags.empty()) throw VariableNotInitialisedException("");
  double r = dt;
  for (DeltaTimeDiagnostic *d: m.deltaTimeDiags)
  {
    double x = d->nextOutput - *m.physicalTime;
    if (x > 0 && x < r) r = x;
  }
  return r;
}
void w_setTC(DM &m, int *t) { m.setTimeCounter(t); }
void r_setTC(DM &m, int *t) { m.timecounter = t; m.usePhysicalTime = false; }
void w_setPT(DM &m, double *t) { m.setPhysicalTime(t); }
void r_setPT(DM &m, double *t) { m.physicalTime = t; m.usePhysicalTime = true; }
void w_setMaster(DM &m, bool b) { m.setMaster(b); }
void r_setMaster(DM &m, bool b) { m.master = b; }
void w_setRank(DM &m, int r) { m.setRank(r); }
void r_setRank(DM &m, int r) { m.rank = r; }
void w_addI(DM &m, IntervalDiagnostic *d) { m.addIntervalDiagnostic(d); }
void r_addI(DM &m, IntervalDiagnostic *d) { m.intervalDiags.push_back(d); }
void w_addD(DM &m, DeltaTimeDiagnostic *d) { m.addDeltaTimeDiagnostic(d); }
void r_addD(DM &m, DeltaTimeDiagnostic *d) { m.deltaTimeDiags.push_back(d); }
void w_remI(DM &m, IntervalDiagnostic *d) { m.removeIntervalDiagnostic(d); }
void r_remI(DM &m, IntervalDiagnostic *d) { m.intervalDiags.remove(d); }
void w_remD(DM &m, DeltaTimeDiagnostic *d) { m.removeDeltaTimeDiagnostic(d); }
void r_remD(DM &m, DeltaTimeDiagnostic *d) { m.deltaTimeDiags.remove(d); }
void w_new(DM &m) { new (&m) DM(); }
void r_new(DM &m)
{
  new (&m.intervalDiags) std::list<IntervalDiagnostic*>();
  new (&m.deltaTimeDiags) std::list<DeltaTimeDiagnostic*>();
  m.timecounter = 0; m.physicalTime = 0; m.usePhysicalTime = false; m.master = true; m.rank = 0;
}
DM *w_inst() { return &DM::instance(); }
DM *r_inst() { if (!DM::pInstance) DM::pInstance = new DM(); return DM::pInstance; }
void w_newI(IntervalDiagnostic &d) { new (&d) IntervalDiagnostic(); }
void r_newI(IntervalDiagnostic &d) { new ((DiagnosticInterface*)&d) DiagnosticInterface(); d.interval = 100; DM::instance().addIntervalDiagnostic(&d); }
void w_newD(DeltaTimeDiagnostic &d) { new (&d) DeltaTimeDiagnostic(); }
void r_newD(DeltaTimeDiagnostic &d) { new ((DiagnosticInterface*)&d) DiagnosticInterface(); d.deltaTime = 1.0; d.nextOutput = 0.0; d.count = 0; DM::instance().addDeltaTimeDiagnostic(&d); }
void w_delI(IntervalDiagnostic &d) { d.IntervalDiagnostic::~IntervalDiagnostic(); }
void r_delI(IntervalDiagnostic &d) { DM::instance().removeIntervalDiagnostic(&d); d.DiagnosticInterface::~DiagnosticInterface(); }
void w_delD(DeltaTimeDiagnostic &d) { d.DeltaTimeDiagnostic::~DeltaTimeDiagnostic(); }
void r_delD(DeltaTimeDiagnostic &d) { DM::instance().removeDeltaTimeDiagnostic(&d); d.DiagnosticInterface::~DiagnosticInterface(); }
}
struct Fld {};
std::ostream &operator<<(std::ostream &o, const Fld &);
typedef SimpleFileDiagnostic<Fld> SD;
extern "C" {
void w_sOpen(SD &d, const string &f) { d.SD::open(f); }
void r_sOpen(SD &d, const string &f) { d.output.open(f.c_str()); }
void r_sOpen2(SD &d, const string &f) { d.output.open(f); }
void w_sWrite(SD &d) { d.SD::write(); }
void r_sWrite(SD &d) { d.output << *d.field; }
void w_sClose(SD &d) { d.SD::close(); }
void r_sClose(SD &d) { d.output.close(); }
void w_sInit(SD &d) { d.SD::init(); }
void r_sInit(SD &d) { if (!d.isDerived()) d.retrieveData(d.fieldName, d.field); }
void w_sPar(SD &d, BlockParameters &p) { d.SD::initParameters(p); }
void r_sPar(SD &d, BlockParameters &p) { d.IntervalDiagnostic::initParameters(p); p.addParameter("field", &d.fieldName); }
std::string w_field(SD &d) { return d.getFieldName(); }
std::string r_field(SD &d) { return d.fieldName; }
bool w_single(SD &d) { return d.SD::singleOut(); }
bool r_single(SD &d) { return d.single_out; }
void w_setSingle(SD &d, bool b) { d.setSingleOut(b); }
void r_setSingle(SD &d, bool b) { d.single_out = b; }
bool w_singleI(DiagnosticInterface &d) { return d.DiagnosticInterface::singleOut(); }
bool r_singleI(DiagnosticInterface &d) { return false; }
bool w_derived(SD &d) { return d.SD::isDerived(); }
bool r_derived(SD &d) { return false; }
}
typedef SimpleDiagnostic<Fld> SDB;
extern "C" {
void w_newS(SDB &d) { new (&d) SDB(); }
void r_newS(SDB &d) { new ((IntervalDiagnostic*)&d) IntervalDiagnostic(); new (&d.fieldName) string(); new (&d.field) std::shared_ptr<Fld>(); d.single_out = false; }
}
