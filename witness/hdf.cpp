// reference definitions for HDF5 output and input (P31)
#include "diagnostic/hdfdiagnostic.hpp"
#include "grid/grid.hpp"
#include "grid/field.hpp"
#include <sstream>
using namespace schnek;
typedef std::string string;
typedef HdfStream HS;
typedef HdfIStream HI;
typedef HdfOStream HO;
struct S : HdfStream { int open(const char*); };
extern "C" {
// ---- stream state
void w_close(HS &s) { s.HS::close(); }
void r_close(HS &s) { if (s.file_id >= 0) H5Fclose(s.file_id); s.file_id = -1; }
void r_close2(HS &s) { if (s.file_id >= 0) { H5Fclose(s.file_id); s.file_id = -1; } }
bool w_good(HS &s) { return s.HS::good(); }
bool r_good(HS &s) { return s.file_id >= 0; }
void w_setBlock(HS &s, string n) { s.setBlockName(n); }
void r_setBlock(HS &s, string n) { s.blockname = n; s.sets_count = -1; }
void w_setAttr(HS &s, pHdfAttributes a) { s.setAttributes(a); }
void r_setAttr(HS &s, pHdfAttributes a) { s.attributes = a; }
void w_setActive(HS &s, bool a) { s.setActive(a); }
void r_setActive(HS &s, bool a) { s.active = a; s.activeModified = true; }
void w_nextName(HS &s, string &out) { out = s.getNextBlockName(); }
void r_nextName(HS &s, string &out)
{
  std::ostringstream o;
  o << s.blockname;
  if (s.sets_count < 0) s.sets_count = 1;
  else { o << s.sets_count; s.sets_count = s.sets_count + 1; }
  out = o.str();
}
void w_assign(HS &s, const HS &o) { s = o; }
void r_assign(HS &s, const HS &o)
{
  if (o.file_id >= 0) H5Iinc_ref(o.file_id);
  s.close();
  s.file_id = o.file_id; s.status = o.status; s.sets_count = o.sets_count; s.blockname = o.blockname; s.attributes = o.attributes;
  s.active = o.active; s.activeModified = o.activeModified; s.mpiComm = o.mpiComm; s.commSet = o.commSet;
}
void w_group(HS &s) { s.makeMPIGroup(); }
#define GROUP(name, patch, op) \
void name(HS &s) \
{ \
  if (!s.activeModified) \
  { \
    if (!s.commSet) { s.mpiComm = MPI_COMM_WORLD; s.commSet = true; } \
    return; \
  } \
  int rank, size; \
  MPI_Group world, act; \
  MPI_Comm_size(MPI_COMM_WORLD, &size); \
  MPI_Comm_rank(MPI_COMM_WORLD, &rank); \
  MPI_Comm_group(MPI_COMM_WORLD, &world); \
  int *mine = new int[size], *all = new int[size]; \
  if (patch) { for (int i = 0; i < size; ++i) mine[i] = 0; if (s.active) mine[rank] = 1; } \
  else for (int i = 0; i < size; ++i) mine[i] = (i == rank && s.active) ? 1 : 0; \
  MPI_Allreduce(mine, all, size, MPI_INT, op, MPI_COMM_WORLD); \
  int n = 0; \
  for (int i = 0; i < size; ++i) if (all[i] > 0) { mine[n] = i; ++n; } \
  MPI_Group_incl(world, n, mine, &act); \
  MPI_Comm_create(MPI_COMM_WORLD, act, &s.mpiComm); \
  delete[] all; \
  delete[] mine; \
  s.activeModified = false; \
}
GROUP(r_group, true, MPI_SUM)
GROUP(r_group2, false, MPI_SUM)
GROUP(r_group3, true, MPI_MAX)
GROUP(r_group4, false, MPI_MAX)
}
template<class G> void refWrite(HO &s, GridContainer<G> &g)
{
  if (!s.active) return;
  string name = s.getNextBlockName();
  const int N = G::Rank;
  hsize_t dims[N], loc[N], mem[N], lstart[N], mstart[N];
  for (int i = 0; i < N; ++i)
  {
    dims[i] = g.global_max[i] - g.global_min[i] + 1;
    loc[i] = g.local_max[i] - g.local_min[i] + 1;
    lstart[i] = g.local_min[i] - g.global_min[i];
    mem[i] = g.grid.getHi()[i] - g.grid.getLo()[i] + 1;
    mstart[i] = g.local_min[i] - g.grid.getLo()[i];
    if (dims[i] < lstart[i] + loc[i]) exit(-1);
  }
  hid_t type = H5DataType<typename G::value_type>::type;
  hid_t sid = H5Screate_simple(N, dims, NULL);
  hid_t set = H5Dcreate2(s.file_id, name.c_str(), type, sid, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
  hid_t fsp = H5Dget_space(set);
  H5Sselect_hyperslab(fsp, H5S_SELECT_SET, lstart, NULL, loc, NULL);
  hid_t msp = H5Screate_simple(N, mem, NULL);
  H5Sselect_hyperslab(msp, H5S_SELECT_SET, mstart, NULL, loc, NULL);
  H5Dwrite(set, type, msp, fsp, s.dxpl_id, g.grid.getRawData());
  H5Sclose(msp);
  H5Sclose(fsp);
  int rank = 0;
  MPI_Comm_rank(MPI_COMM_WORLD, &rank);
  if (rank == 0)
    for (std::pair<string, HdfAttributes::pInfo> p: s.attributes->attributes)
    {
      HdfAttributes::Info &i = *p.second;
      hid_t d = H5Screate_simple(1, &i.dims, NULL);
      hid_t a = H5Acreate2(set, p.first.c_str(), i.type, d, H5P_DEFAULT, H5P_DEFAULT);
      H5Awrite(a, i.type, i.buffer);
      H5Aclose(a);
      H5Sclose(d);
    }
  H5Dclose(set);
  H5Sclose(sid);
}
template<class G> void refRead(HI &s, GridContainer<G> &g)
{
  string name = s.getNextBlockName();
  const int N = G::Rank;
  hsize_t dims[N], loc[N], mem[N], lstart[N], mstart[N];
  for (int i = 0; i < N; ++i)
  {
    dims[i] = g.global_max[i] - g.global_min[i] + 1;
    loc[i] = g.local_max[i] - g.local_min[i] + 1;
    lstart[i] = g.local_min[i] - g.global_min[i];
    mem[i] = g.grid.getHi()[i] - g.grid.getLo()[i] + 1;
    mstart[i] = g.local_min[i] - g.grid.getLo()[i];
    if (dims[i] < lstart[i] + loc[i]) exit(-1);
  }
  hid_t set = H5Dopen2(s.file_id, name.c_str(), H5P_DEFAULT);
  hid_t fsp = H5Dget_space(set);
  H5Sselect_hyperslab(fsp, H5S_SELECT_SET, lstart, NULL, loc, NULL);
  hid_t msp = H5Screate_simple(N, mem, NULL);
  H5Sselect_hyperslab(msp, H5S_SELECT_SET, mstart, NULL, loc, NULL);
  H5Dread(set, H5DataType<typename G::value_type>::type, msp, fsp, H5P_DEFAULT, g.grid.getRawData());
  H5Sclose(msp);
  H5Sclose(fsp);
  H5Dclose(set);
}
typedef Grid<double, 1> G1;
typedef Grid<double, 2> G2;
typedef Grid<int, 3> G3;
typedef Field<double, 2> F2;
extern "C" {
int w_lo1(HI &s, GridContainer<G1> &g, int d) { return g.grid.getLo(d); }
int w_hi1(HI &s, GridContainer<G1> &g, int d) { return g.grid.getHi(d); }
int w_dim1(HI &s, GridContainer<G1> &g, int d) { return g.grid.getDims(d); }
int w_lo2(HI &s, GridContainer<G2> &g, int d) { return g.grid.getLo(d); }
int w_hi2(HI &s, GridContainer<G2> &g, int d) { return g.grid.getHi(d); }
int w_dim2(HI &s, GridContainer<G2> &g, int d) { return g.grid.getDims(d); }
int w_lo3(HI &s, GridContainer<G3> &g, int d) { return g.grid.getLo(d); }
int w_hi3(HI &s, GridContainer<G3> &g, int d) { return g.grid.getHi(d); }
int w_dim3(HI &s, GridContainer<G3> &g, int d) { return g.grid.getDims(d); }
int w_loF(HI &s, GridContainer<F2> &g, int d) { return g.grid.getLo(d); }
int w_hiF(HI &s, GridContainer<F2> &g, int d) { return g.grid.getHi(d); }
int w_dimF(HI &s, GridContainer<F2> &g, int d) { return g.grid.getDims(d); }
void w_write1(HO &s, GridContainer<G1> &g) { s.writeGrid(g); }
void r_write1(HO &s, GridContainer<G1> &g) { refWrite(s, g); }
void w_write2(HO &s, GridContainer<G2> &g) { s.writeGrid(g); }
void r_write2(HO &s, GridContainer<G2> &g) { refWrite(s, g); }
void w_write3(HO &s, GridContainer<G3> &g) { s.writeGrid(g); }
void r_write3(HO &s, GridContainer<G3> &g) { refWrite(s, g); }
void w_writeF(HO &s, GridContainer<F2> &g) { s.writeGrid(g); }
void r_writeF(HO &s, GridContainer<F2> &g) { refWrite(s, g); }
void w_read1(HI &s, GridContainer<G1> &g) { s.readGrid(g); }
void r_read1(HI &s, GridContainer<G1> &g) { refRead(s, g); }
void w_read2(HI &s, GridContainer<G2> &g) { s.readGrid(g); }
void r_read2(HI &s, GridContainer<G2> &g) { refRead(s, g); }
void w_read3(HI &s, GridContainer<G3> &g) { s.readGrid(g); }
void r_read3(HI &s, GridContainer<G3> &g) { refRead(s, g); }
}
extern "C" {
// ---- construction, copies, destruction
void w_new(S &s) { new (&s) S; }
void r_new(S &s)
{
  s.file_id = -1; s.status = 0;
  new (&s.blockname) string("data");
  new (&s.attributes) pHdfAttributes(std::make_shared<HdfAttributes>());
  s.sets_count = 0; s.active = true; s.activeModified = false; s.commSet = false;
}
void w_copy(S &s, const S &o) { new (&s) S(o); }
void r_copy(S &s, const S &o)
{
  s.file_id = o.file_id; s.status = o.status;
  new (&s.blockname) string(o.blockname);
  new (&s.attributes) pHdfAttributes(o.attributes);
  s.sets_count = o.sets_count; s.active = o.active; s.activeModified = o.activeModified; s.mpiComm = o.mpiComm; s.commSet = o.commSet;
  if (s.file_id >= 0) H5Iinc_ref(s.file_id);
}
void w_del(HS &s) { s.HS::~HdfStream(); }
void r_del(HS &s) { s.HS::close(); s.attributes.~shared_ptr(); s.blockname.~basic_string(); }
void w_copyO(HO &s, const HO &o) { new (&s) HO(o); }
void r_copyO(HO &s, const HO &o)
{
  new ((S*)&s) S((const S&)o);
  s.dxpl_id = o.dxpl_id; s.plist_id = o.plist_id; s.initialised = o.initialised;
  if (o.initialised) { H5Iinc_ref(o.dxpl_id); H5Iinc_ref(o.plist_id); }
}
void w_assignO(HO &s, const HO &o) { s = o; }
void r_assignO(HO &s, const HO &o)
{
  if (o.initialised) { H5Iinc_ref(o.dxpl_id); H5Iinc_ref(o.plist_id); }
  if (s.initialised) { H5Pclose(s.dxpl_id); H5Pclose(s.plist_id); }
  static_cast<HS&>(s) = o;
  s.dxpl_id = o.dxpl_id; s.plist_id = o.plist_id; s.initialised = o.initialised;
}
void w_delO(HO &s) { s.HO::~HdfOStream(); }
void r_delO(HO &s) { if (s.initialised) { H5Pclose(s.dxpl_id); H5Pclose(s.plist_id); s.initialised = false; } s.HS::~HdfStream(); }
void w_newO(HO &s) { new (&s) HO(); }
void r_newO(HO &s) { new ((S*)&s) S; s.initialised = false; }
void w_newI(HI &s) { new (&s) HI(); }
void r_newI(HI &s) { new ((S*)&s) S; }
void w_copyI(HI &s, const HI &o) { new (&s) HI(o); }
void r_copyI(HI &s, const HI &o) { new ((S*)&s) S((const S&)o); }
void w_nameI(HI &s, const char *f) { new (&s) HI(f); }
void r_nameI(HI &s, const char *f) { new (&s) HI(); s.HI::open(f); }
void w_nameO(HO &s, const char *f) { new (&s) HO(f); }
void r_nameO(HO &s, const char *f) { new (&s) HO(); s.HO::open(f); }
// ---- opening
int w_openI(HI &s, const char *f) { return s.HI::open(f); }
int r_openI(HI &s, const char *f)
{
  s.close();
  s.makeMPIGroup();
  if (s.active)
  {
    hid_t p = H5Pcreate(H5P_FILE_ACCESS);
    H5Pset_sieve_buf_size(p, 262144);
    H5Pset_alignment(p, 1, 1);
    MPI_Info i;
    MPI_Info_create(&i);
    MPI_Info_set(i, "access_style", "write_once");
    MPI_Info_set(i, "collective_buffering", "true");
    MPI_Info_set(i, "cb_block_size", "1048576");
    MPI_Info_set(i, "cb_buffer_size", "4194304");
    H5Pset_fapl_mpio(p, s.mpiComm, i);
    s.file_id = H5Fopen(f, H5F_ACC_RDONLY, p);
    MPI_Info_free(&i);
    H5Pclose(p);
    s.dxpl_id = H5Pcreate(H5P_DATASET_XFER);
    H5Pset_dxpl_mpio(s.dxpl_id, H5FD_MPIO_COLLECTIVE);
  }
  s.sets_count = 0;
  return 1;
}
int w_openO(HO &s, const char *f) { return s.HO::open(f); }
int r_openO(HO &s, const char *f)
{
  s.close();
  s.sets_count = 0;
  if (s.activeModified)
  {
    if (s.initialised) { H5Pclose(s.dxpl_id); H5Pclose(s.plist_id); }
    s.initialised = false;
  }
  s.makeMPIGroup();
  if (s.active)
  {
    int r;
    MPI_Comm_rank(MPI_COMM_WORLD, &r);
    if (!s.initialised)
    {
      s.plist_id = H5Pcreate(H5P_FILE_ACCESS);
      H5Pset_sieve_buf_size(s.plist_id, 262144);
      H5Pset_alignment(s.plist_id, 1, 1);
      MPI_Info i;
      MPI_Info_create(&i);
      MPI_Info_set(i, "access_style", "write_once");
      MPI_Info_set(i, "collective_buffering", "true");
      MPI_Info_set(i, "cb_block_size", "1048576");
      MPI_Info_set(i, "cb_buffer_size", "4194304");
      H5Pset_fapl_mpio(s.plist_id, s.mpiComm, i);
      MPI_Info_free(&i);
    }
    s.file_id = H5Fcreate(f, H5F_ACC_TRUNC, H5P_DEFAULT, s.plist_id);
    if (!s.initialised)
    {
      s.dxpl_id = H5Pcreate(H5P_DATASET_XFER);
      H5Pset_dxpl_mpio(s.dxpl_id, H5FD_MPIO_COLLECTIVE);
      s.initialised = true;
    }
  }
  return s.file_id;
}
// ---- attributes
void w_attr(HdfAttributes &a, string n, const double *v, hsize_t d) { a.set(n, v, d); }
void r_attr(HdfAttributes &a, string n, const double *v, hsize_t d)
{
  HdfAttributes::pInfo i(new HdfAttributes::Info);
  i->type = H5DataType<double>::type; i->buffer = v; i->dims = d;
  a.attributes[n] = i;
}
void w_attrD(HdfAttributes &a, string n, const double *v) { a.set(n, v); }
void r_attrD(HdfAttributes &a, string n, const double *v) {
  HdfAttributes::pInfo i(new HdfAttributes::Info);
  i->type = H5DataType<double>::type; i->buffer = v; i->dims = 1;
  a.attributes[n] = i;
}
void w_attrRD(HdfAttributes &a, string n, const int &v) { a.set(n, v); }
void r_attrRD(HdfAttributes &a, string n, const int &v) {
  HdfAttributes::pInfo i(new HdfAttributes::Info);
  i->type = H5DataType<int>::type; i->buffer = &v; i->dims = 1;
  a.attributes[n] = i;
}
void w_attrR(HdfAttributes &a, string n, const int &v, hsize_t d) { a.set(n, v, d); }
void r_attrR(HdfAttributes &a, string n, const int &v, hsize_t d)
{
  HdfAttributes::pInfo i(new HdfAttributes::Info);
  i->type = H5DataType<int>::type; i->buffer = &v; i->dims = d;
  a.attributes[n] = i;
}
}
// ---- blocks
typedef HDFGridDiagnostic<G2> HD;
typedef HDFGridDiagnostic<F2, DeltaTimeDiagnostic> HDF;
typedef HDFGridReader<G2> HR;
typedef HDFGridReader<F2> HRF;
// the field may be handed on by value (a copy sharing the data) or by reference
template<class F, class L> void byVal(F f, L l) { l(f); }
template<class F, class L> void byRef(F &f, L l) { l(f); }
#define COPYG(how, T) how<T>(d.field, [&](T &f) { d.container.grid = f; d.container.local_min = f.getLo(); d.container.local_max = f.getHi(); });
#define COPYF(how, T) how<T>(d.field, [&](T &f) { d.container.grid = f; d.container.local_min = f.getInnerLo(); d.container.local_max = f.getInnerHi(); });
extern "C" {
void w_dOpen(HD &d, const string &f) { d.HD::open(f); }
void r_dOpen(HD &d, const string &f) { d.output.open(f.c_str()); }
void w_dWrite(HD &d) { d.HD::write(); }
void r_dWrite(HD &d) { d.output.setBlockName(d.getDatasetName()); d.output.setAttributes(d.getAttributes()); d.output.writeGrid(d.container); }
void w_dClose(HD &d) { d.HD::close(); }
void r_dClose(HD &d) { d.output.close(); }
void w_dName(HD &d, string &s) { s = d.HD::getDatasetName(); }
void r_dName(HD &d, string &s) { s = "data"; }
void w_dInit(HD &d) { d.HD::init(); }
void w_dInitF(HDF &d) { d.HDF::init(); }
void w_rInit(HR &d) { d.HR::init(); }
void w_rInitF(HRF &d) { d.HRF::init(); }
#define INITS(X, how) \
void r_dInit##X(HD &d) { d.SimpleDiagnostic<G2, G2, IntervalDiagnostic>::init(); \
  if (!d.isDerived()) { COPYG(how, G2) d.container.global_min = d.getGlobalMin(); d.container.global_max = d.getGlobalMax(); } } \
void r_dInitF##X(HDF &d) { d.SimpleDiagnostic<F2, F2, DeltaTimeDiagnostic>::init(); \
  if (!d.isDerived()) { COPYF(how, F2) d.container.global_min = d.getGlobalMin(); d.container.global_max = d.getGlobalMax(); } } \
void r_rInit##X(HR &d) { d.Block::init(); d.retrieveData(d.fieldName, d.field); \
  COPYG(how, G2) d.container.global_min = d.getGlobalMin(); d.container.global_max = d.getGlobalMax(); } \
void r_rInitF##X(HRF &d) { d.Block::init(); d.retrieveData(d.fieldName, d.field); \
  COPYF(how, F2) d.container.global_min = d.getGlobalMin(); d.container.global_max = d.getGlobalMax(); }
INITS(V, byVal)
INITS(R, byRef)
void w_rExec(HR &d) { d.execute(); }
void r_rExec(HR &d) { d.input.open(d.fileName.c_str()); d.input.setBlockName(d.getDatasetName()); d.input.readGrid(d.container); d.input.close(); }
void w_rPar(HR &d, BlockParameters &p) { d.HR::initParameters(p); }
void r_rPar(HR &d, BlockParameters &p) { p.addParameter("file", &d.fileName); p.addParameter("field", &d.fieldName); }
}
