// reference definitions for the bibliography (P34)
#include "tools/literature.hpp"
using namespace schnek;
typedef std::string string;
typedef LiteratureReference LR;
typedef LiteratureManager LM;
extern "C" {
string w_get_address(const LR &r) { return r.getAddress(); }
string r_get_address(const LR &r) { return r.address; }
void w_set_address(LR &r, const string &x) { r.setAddress(x); }
void r_set_address(LR &r, const string &x) { r.address = x; }
string w_get_annote(const LR &r) { return r.getAnnote(); }
string r_get_annote(const LR &r) { return r.annote; }
void w_set_annote(LR &r, const string &x) { r.setAnnote(x); }
void r_set_annote(LR &r, const string &x) { r.annote = x; }
string w_get_author(const LR &r) { return r.getAuthor(); }
string r_get_author(const LR &r) { return r.author; }
void w_set_author(LR &r, const string &x) { r.setAuthor(x); }
void r_set_author(LR &r, const string &x) { r.author = x; }
string w_get_booktitle(const LR &r) { return r.getBooktitle(); }
string r_get_booktitle(const LR &r) { return r.booktitle; }
void w_set_booktitle(LR &r, const string &x) { r.setBooktitle(x); }
void r_set_booktitle(LR &r, const string &x) { r.booktitle = x; }
string w_get_chapter(const LR &r) { return r.getChapter(); }
string r_get_chapter(const LR &r) { return r.chapter; }
void w_set_chapter(LR &r, const string &x) { r.setChapter(x); }
void r_set_chapter(LR &r, const string &x) { r.chapter = x; }
string w_get_crossref(const LR &r) { return r.getCrossref(); }
string r_get_crossref(const LR &r) { return r.crossref; }
void w_set_crossref(LR &r, const string &x) { r.setCrossref(x); }
void r_set_crossref(LR &r, const string &x) { r.crossref = x; }
string w_get_edition(const LR &r) { return r.getEdition(); }
string r_get_edition(const LR &r) { return r.edition; }
void w_set_edition(LR &r, const string &x) { r.setEdition(x); }
void r_set_edition(LR &r, const string &x) { r.edition = x; }
string w_get_editor(const LR &r) { return r.getEditor(); }
string r_get_editor(const LR &r) { return r.editor; }
void w_set_editor(LR &r, const string &x) { r.setEditor(x); }
void r_set_editor(LR &r, const string &x) { r.editor = x; }
string w_get_eprint(const LR &r) { return r.getEprint(); }
string r_get_eprint(const LR &r) { return r.eprint; }
void w_set_eprint(LR &r, const string &x) { r.setEprint(x); }
void r_set_eprint(LR &r, const string &x) { r.eprint = x; }
string w_get_howpublished(const LR &r) { return r.getHowpublished(); }
string r_get_howpublished(const LR &r) { return r.howpublished; }
void w_set_howpublished(LR &r, const string &x) { r.setHowpublished(x); }
void r_set_howpublished(LR &r, const string &x) { r.howpublished = x; }
string w_get_institution(const LR &r) { return r.getInstitution(); }
string r_get_institution(const LR &r) { return r.institution; }
void w_set_institution(LR &r, const string &x) { r.setInstitution(x); }
void r_set_institution(LR &r, const string &x) { r.institution = x; }
string w_get_journal(const LR &r) { return r.getJournal(); }
string r_get_journal(const LR &r) { return r.journal; }
void w_set_journal(LR &r, const string &x) { r.setJournal(x); }
void r_set_journal(LR &r, const string &x) { r.journal = x; }
string w_get_key(const LR &r) { return r.getKey(); }
string r_get_key(const LR &r) { return r.key; }
void w_set_key(LR &r, const string &x) { r.setKey(x); }
void r_set_key(LR &r, const string &x) { r.key = x; }
string w_get_month(const LR &r) { return r.getMonth(); }
string r_get_month(const LR &r) { return r.month; }
void w_set_month(LR &r, const string &x) { r.setMonth(x); }
void r_set_month(LR &r, const string &x) { r.month = x; }
string w_get_note(const LR &r) { return r.getNote(); }
string r_get_note(const LR &r) { return r.note; }
void w_set_note(LR &r, const string &x) { r.setNote(x); }
void r_set_note(LR &r, const string &x) { r.note = x; }
string w_get_number(const LR &r) { return r.getNumber(); }
string r_get_number(const LR &r) { return r.number; }
void w_set_number(LR &r, const string &x) { r.setNumber(x); }
void r_set_number(LR &r, const string &x) { r.number = x; }
string w_get_organization(const LR &r) { return r.getOrganization(); }
string r_get_organization(const LR &r) { return r.organization; }
void w_set_organization(LR &r, const string &x) { r.setOrganization(x); }
void r_set_organization(LR &r, const string &x) { r.organization = x; }
string w_get_pages(const LR &r) { return r.getPages(); }
string r_get_pages(const LR &r) { return r.pages; }
void w_set_pages(LR &r, const string &x) { r.setPages(x); }
void r_set_pages(LR &r, const string &x) { r.pages = x; }
string w_get_publisher(const LR &r) { return r.getPublisher(); }
string r_get_publisher(const LR &r) { return r.publisher; }
void w_set_publisher(LR &r, const string &x) { r.setPublisher(x); }
void r_set_publisher(LR &r, const string &x) { r.publisher = x; }
string w_get_school(const LR &r) { return r.getSchool(); }
string r_get_school(const LR &r) { return r.school; }
void w_set_school(LR &r, const string &x) { r.setSchool(x); }
void r_set_school(LR &r, const string &x) { r.school = x; }
string w_get_series(const LR &r) { return r.getSeries(); }
string r_get_series(const LR &r) { return r.series; }
void w_set_series(LR &r, const string &x) { r.setSeries(x); }
void r_set_series(LR &r, const string &x) { r.series = x; }
string w_get_title(const LR &r) { return r.getTitle(); }
string r_get_title(const LR &r) { return r.title; }
void w_set_title(LR &r, const string &x) { r.setTitle(x); }
void r_set_title(LR &r, const string &x) { r.title = x; }
string w_get_type(const LR &r) { return r.getType(); }
string r_get_type(const LR &r) { return r.type; }
void w_set_type(LR &r, const string &x) { r.setType(x); }
void r_set_type(LR &r, const string &x) { r.type = x; }
string w_get_url(const LR &r) { return r.getUrl(); }
string r_get_url(const LR &r) { return r.url; }
void w_set_url(LR &r, const string &x) { r.setUrl(x); }
void r_set_url(LR &r, const string &x) { r.url = x; }
string w_get_doi(const LR &r) { return r.getDoi(); }
string r_get_doi(const LR &r) { return r.doi; }
void w_set_doi(LR &r, const string &x) { r.setDoi(x); }
void r_set_doi(LR &r, const string &x) { r.doi = x; }
string w_get_volume(const LR &r) { return r.getVolume(); }
string r_get_volume(const LR &r) { return r.volume; }
void w_set_volume(LR &r, const string &x) { r.setVolume(x); }
void r_set_volume(LR &r, const string &x) { r.volume = x; }
string w_get_year(const LR &r) { return r.getYear(); }
string r_get_year(const LR &r) { return r.year; }
void w_set_year(LR &r, const string &x) { r.setYear(x); }
void r_set_year(LR &r, const string &x) { r.year = x; }
int w_kind(const LR &r) { return r.getPublicationType(); }
int r_kind(const LR &r) { return r.publType; }
void w_setKind(LR &r, LR::PublicationType t) { r.setPublicationType(t); }
void r_setKind(LR &r, LR::PublicationType t) { r.publType = t; }
string w_bibKey(const LR &r) { return r.LR::getBibKey(); }
string r_bibKey(const LR &r) { return r.bibKey; }
string w_kindName(const LR &r) { return r.getPublicationTypeString(); }
string r_kindName(const LR &r)
{
  if (r.publType == LR::article) return "article";
  if (r.publType == LR::book) return "book";
  if (r.publType == LR::booklet) return "booklet";
  if (r.publType == LR::inbook) return "inbook";
  if (r.publType == LR::incollection) return "incollection";
  if (r.publType == LR::inproceedings) return "inproceedings";
  if (r.publType == LR::manual) return "manual";
  if (r.publType == LR::mastersthesis) return "mastersthesis";
  if (r.publType == LR::misc) return "misc";
  if (r.publType == LR::phdthesis) return "phdthesis";
  if (r.publType == LR::proceedings) return "proceedings";
  if (r.publType == LR::techreport) return "techreport";
  return "unpublished";
}
void w_new(LR &r) { new (&r) LR(); }
void r_new(LR &r) { new (&r.address) string(); new (&r.annote) string(); new (&r.author) string(); new (&r.booktitle) string(); new (&r.chapter) string(); new (&r.crossref) string(); new (&r.edition) string(); new (&r.editor) string(); new (&r.eprint) string(); new (&r.howpublished) string(); new (&r.institution) string(); new (&r.journal) string(); new (&r.key) string(); new (&r.month) string(); new (&r.note) string(); new (&r.number) string(); new (&r.organization) string(); new (&r.pages) string(); new (&r.publisher) string(); new (&r.school) string(); new (&r.series) string(); new (&r.title) string(); new (&r.type) string(); new (&r.url) string(); new (&r.doi) string(); new (&r.volume) string(); new (&r.year) string(); new (&r.bibKey) string(); r.publType = LR::misc; }
void w_newKey(LR &r, const string &k) { new (&r) LR(k); }
void r_newKey(LR &r, const string &k) { new (&r.address) string(); new (&r.annote) string(); new (&r.author) string(); new (&r.booktitle) string(); new (&r.chapter) string(); new (&r.crossref) string(); new (&r.edition) string(); new (&r.editor) string(); new (&r.eprint) string(); new (&r.howpublished) string(); new (&r.institution) string(); new (&r.journal) string(); new (&r.key) string(); new (&r.month) string(); new (&r.note) string(); new (&r.number) string(); new (&r.organization) string(); new (&r.pages) string(); new (&r.publisher) string(); new (&r.school) string(); new (&r.series) string(); new (&r.title) string(); new (&r.type) string(); new (&r.url) string(); new (&r.doi) string(); new (&r.volume) string(); new (&r.year) string(); new (&r.bibKey) string(k); r.publType = LR::misc; }
void w_copy(LR &r, const LR &q) { new (&r) LR(q); }
void r_copy(LR &r, const LR &q) { new (&r.address) string(q.address); new (&r.annote) string(q.annote); new (&r.author) string(q.author); new (&r.booktitle) string(q.booktitle); new (&r.chapter) string(q.chapter); new (&r.crossref) string(q.crossref); new (&r.edition) string(q.edition); new (&r.editor) string(q.editor); new (&r.eprint) string(q.eprint); new (&r.howpublished) string(q.howpublished); new (&r.institution) string(q.institution); new (&r.journal) string(q.journal); new (&r.key) string(q.key); new (&r.month) string(q.month); new (&r.note) string(q.note); new (&r.number) string(q.number); new (&r.organization) string(q.organization); new (&r.pages) string(q.pages); new (&r.publisher) string(q.publisher); new (&r.school) string(q.school); new (&r.series) string(q.series); new (&r.title) string(q.title); new (&r.type) string(q.type); new (&r.url) string(q.url); new (&r.doi) string(q.doi); new (&r.volume) string(q.volume); new (&r.year) string(q.year); new (&r.bibKey) string(q.bibKey); r.publType = q.publType; }
LR &w_assign(LR &r, const LR &q) { return r = q; }
LR &r_assign(LR &r, const LR &q) { r.address = q.address; r.annote = q.annote; r.author = q.author; r.booktitle = q.booktitle; r.chapter = q.chapter; r.crossref = q.crossref; r.edition = q.edition; r.editor = q.editor; r.eprint = q.eprint; r.howpublished = q.howpublished; r.institution = q.institution; r.journal = q.journal; r.key = q.key; r.month = q.month; r.note = q.note; r.number = q.number; r.organization = q.organization; r.pages = q.pages; r.publisher = q.publisher; r.school = q.school; r.series = q.series; r.title = q.title; r.type = q.type; r.url = q.url; r.doi = q.doi; r.volume = q.volume; r.year = q.year; r.bibKey = q.bibKey; r.publType = q.publType; return r; }
void w_make_Article(LiteratureArticle &r, const string &bibKey, const string &author, const string &title, const string &journal, const string &year, const string &volume, const string &pages, const string &number, const string &month, const string &note, const string &key) { new (&r) LiteratureArticle(bibKey, author, title, journal, year, volume, pages, number, month, note, key); }
void r_make_Article(LiteratureArticle &r, const string &bibKey, const string &author, const string &title, const string &journal, const string &year, const string &volume, const string &pages, const string &number, const string &month, const string &note, const string &key) { new (&r.address) string(); new (&r.annote) string(); new (&r.author) string(author); new (&r.booktitle) string(); new (&r.chapter) string(); new (&r.crossref) string(); new (&r.edition) string(); new (&r.editor) string(); new (&r.eprint) string(); new (&r.howpublished) string(); new (&r.institution) string(); new (&r.journal) string(journal); new (&r.key) string(key); new (&r.month) string(month); new (&r.note) string(note); new (&r.number) string(number); new (&r.organization) string(); new (&r.pages) string(pages); new (&r.publisher) string(); new (&r.school) string(); new (&r.series) string(); new (&r.title) string(title); new (&r.type) string(); new (&r.url) string(); new (&r.doi) string(); new (&r.volume) string(volume); new (&r.year) string(year); new (&r.bibKey) string(bibKey); r.publType = LR::article; }
void w_make_Book(LiteratureBook &r, const string &bibKey, const string &author, const string &editor, const string &title, const string &publisher, const string &year, const string &volume, const string &number, const string &series, const string &address, const string &edition, const string &month, const string &note, const string &key) { new (&r) LiteratureBook(bibKey, author, editor, title, publisher, year, volume, number, series, address, edition, month, note, key); }
void r_make_Book(LiteratureBook &r, const string &bibKey, const string &author, const string &editor, const string &title, const string &publisher, const string &year, const string &volume, const string &number, const string &series, const string &address, const string &edition, const string &month, const string &note, const string &key) { new (&r.address) string(address); new (&r.annote) string(); new (&r.author) string(author); new (&r.booktitle) string(); new (&r.chapter) string(); new (&r.crossref) string(); new (&r.edition) string(edition); new (&r.editor) string(editor); new (&r.eprint) string(); new (&r.howpublished) string(); new (&r.institution) string(); new (&r.journal) string(); new (&r.key) string(key); new (&r.month) string(month); new (&r.note) string(note); new (&r.number) string(number); new (&r.organization) string(); new (&r.pages) string(); new (&r.publisher) string(publisher); new (&r.school) string(); new (&r.series) string(series); new (&r.title) string(title); new (&r.type) string(); new (&r.url) string(); new (&r.doi) string(); new (&r.volume) string(volume); new (&r.year) string(year); new (&r.bibKey) string(bibKey); r.publType = LR::book; }
void w_make_Booklet(LiteratureBooklet &r, const string &bibKey, const string &title, const string &author, const string &howpublished, const string &address, const string &month, const string &year, const string &note, const string &key) { new (&r) LiteratureBooklet(bibKey, title, author, howpublished, address, month, year, note, key); }
void r_make_Booklet(LiteratureBooklet &r, const string &bibKey, const string &title, const string &author, const string &howpublished, const string &address, const string &month, const string &year, const string &note, const string &key) { new (&r.address) string(address); new (&r.annote) string(); new (&r.author) string(author); new (&r.booktitle) string(); new (&r.chapter) string(); new (&r.crossref) string(); new (&r.edition) string(); new (&r.editor) string(); new (&r.eprint) string(); new (&r.howpublished) string(howpublished); new (&r.institution) string(); new (&r.journal) string(); new (&r.key) string(key); new (&r.month) string(month); new (&r.note) string(note); new (&r.number) string(); new (&r.organization) string(); new (&r.pages) string(); new (&r.publisher) string(); new (&r.school) string(); new (&r.series) string(); new (&r.title) string(title); new (&r.type) string(); new (&r.url) string(); new (&r.doi) string(); new (&r.volume) string(); new (&r.year) string(year); new (&r.bibKey) string(bibKey); r.publType = LR::booklet; }
void w_make_InBook(LiteratureInBook &r, const string &bibKey, const string &author, const string &editor, const string &title, const string &chapter, const string &pages, const string &publisher, const string &year, const string &volume, const string &number, const string &series, const string &type, const string &address, const string &edition, const string &month, const string &note, const string &key) { new (&r) LiteratureInBook(bibKey, author, editor, title, chapter, pages, publisher, year, volume, number, series, type, address, edition, month, note, key); }
void r_make_InBook(LiteratureInBook &r, const string &bibKey, const string &author, const string &editor, const string &title, const string &chapter, const string &pages, const string &publisher, const string &year, const string &volume, const string &number, const string &series, const string &type, const string &address, const string &edition, const string &month, const string &note, const string &key) { new (&r.address) string(address); new (&r.annote) string(); new (&r.author) string(author); new (&r.booktitle) string(); new (&r.chapter) string(chapter); new (&r.crossref) string(); new (&r.edition) string(edition); new (&r.editor) string(editor); new (&r.eprint) string(); new (&r.howpublished) string(); new (&r.institution) string(); new (&r.journal) string(); new (&r.key) string(key); new (&r.month) string(month); new (&r.note) string(note); new (&r.number) string(number); new (&r.organization) string(); new (&r.pages) string(pages); new (&r.publisher) string(publisher); new (&r.school) string(); new (&r.series) string(series); new (&r.title) string(title); new (&r.type) string(type); new (&r.url) string(); new (&r.doi) string(); new (&r.volume) string(volume); new (&r.year) string(year); new (&r.bibKey) string(bibKey); r.publType = LR::inbook; }
void w_make_InCollection(LiteratureInCollection &r, const string &bibKey, const string &author, const string &title, const string &booktitle, const string &publisher, const string &year, const string &editor, const string &volume, const string &number, const string &series, const string &type, const string &chapter, const string &pages, const string &address, const string &edition, const string &month, const string &note, const string &key) { new (&r) LiteratureInCollection(bibKey, author, title, booktitle, publisher, year, editor, volume, number, series, type, chapter, pages, address, edition, month, note, key); }
void r_make_InCollection(LiteratureInCollection &r, const string &bibKey, const string &author, const string &title, const string &booktitle, const string &publisher, const string &year, const string &editor, const string &volume, const string &number, const string &series, const string &type, const string &chapter, const string &pages, const string &address, const string &edition, const string &month, const string &note, const string &key) { new (&r.address) string(address); new (&r.annote) string(); new (&r.author) string(author); new (&r.booktitle) string(booktitle); new (&r.chapter) string(chapter); new (&r.crossref) string(); new (&r.edition) string(edition); new (&r.editor) string(editor); new (&r.eprint) string(); new (&r.howpublished) string(); new (&r.institution) string(); new (&r.journal) string(); new (&r.key) string(key); new (&r.month) string(month); new (&r.note) string(note); new (&r.number) string(number); new (&r.organization) string(); new (&r.pages) string(pages); new (&r.publisher) string(publisher); new (&r.school) string(); new (&r.series) string(series); new (&r.title) string(title); new (&r.type) string(type); new (&r.url) string(); new (&r.doi) string(); new (&r.volume) string(volume); new (&r.year) string(year); new (&r.bibKey) string(bibKey); r.publType = LR::incollection; }
void w_make_InProceedings(LiteratureInProceedings &r, const string &bibKey, const string &author, const string &title, const string &booktitle, const string &year, const string &editor, const string &volume, const string &number, const string &series, const string &pages, const string &address, const string &month, const string &organization, const string &publisher, const string &note, const string &key) { new (&r) LiteratureInProceedings(bibKey, author, title, booktitle, year, editor, volume, number, series, pages, address, month, organization, publisher, note, key); }
void r_make_InProceedings(LiteratureInProceedings &r, const string &bibKey, const string &author, const string &title, const string &booktitle, const string &year, const string &editor, const string &volume, const string &number, const string &series, const string &pages, const string &address, const string &month, const string &organization, const string &publisher, const string &note, const string &key) { new (&r.address) string(address); new (&r.annote) string(); new (&r.author) string(author); new (&r.booktitle) string(booktitle); new (&r.chapter) string(); new (&r.crossref) string(); new (&r.edition) string(); new (&r.editor) string(editor); new (&r.eprint) string(); new (&r.howpublished) string(); new (&r.institution) string(); new (&r.journal) string(); new (&r.key) string(key); new (&r.month) string(month); new (&r.note) string(note); new (&r.number) string(number); new (&r.organization) string(organization); new (&r.pages) string(pages); new (&r.publisher) string(publisher); new (&r.school) string(); new (&r.series) string(series); new (&r.title) string(title); new (&r.type) string(); new (&r.url) string(); new (&r.doi) string(); new (&r.volume) string(volume); new (&r.year) string(year); new (&r.bibKey) string(bibKey); r.publType = LR::inproceedings; }
void w_make_Manual(LiteratureManual &r, const string &bibKey, const string &title, const string &author, const string &organization, const string &address, const string &edition, const string &year, const string &publisher, const string &note, const string &key) { new (&r) LiteratureManual(bibKey, title, author, organization, address, edition, year, publisher, note, key); }
void r_make_Manual(LiteratureManual &r, const string &bibKey, const string &title, const string &author, const string &organization, const string &address, const string &edition, const string &year, const string &publisher, const string &note, const string &key) { new (&r.address) string(address); new (&r.annote) string(); new (&r.author) string(author); new (&r.booktitle) string(); new (&r.chapter) string(); new (&r.crossref) string(); new (&r.edition) string(edition); new (&r.editor) string(); new (&r.eprint) string(); new (&r.howpublished) string(); new (&r.institution) string(); new (&r.journal) string(); new (&r.key) string(key); new (&r.month) string(); new (&r.note) string(note); new (&r.number) string(); new (&r.organization) string(organization); new (&r.pages) string(); new (&r.publisher) string(publisher); new (&r.school) string(); new (&r.series) string(); new (&r.title) string(title); new (&r.type) string(); new (&r.url) string(); new (&r.doi) string(); new (&r.volume) string(); new (&r.year) string(year); new (&r.bibKey) string(bibKey); r.publType = LR::manual; }
void w_make_MastersThesis(LiteratureMastersThesis &r, const string &bibKey, const string &author, const string &title, const string &school, const string &year, const string &type, const string &address, const string &month, const string &note, const string &key) { new (&r) LiteratureMastersThesis(bibKey, author, title, school, year, type, address, month, note, key); }
void r_make_MastersThesis(LiteratureMastersThesis &r, const string &bibKey, const string &author, const string &title, const string &school, const string &year, const string &type, const string &address, const string &month, const string &note, const string &key) { new (&r.address) string(address); new (&r.annote) string(); new (&r.author) string(author); new (&r.booktitle) string(); new (&r.chapter) string(); new (&r.crossref) string(); new (&r.edition) string(); new (&r.editor) string(); new (&r.eprint) string(); new (&r.howpublished) string(); new (&r.institution) string(); new (&r.journal) string(); new (&r.key) string(key); new (&r.month) string(month); new (&r.note) string(note); new (&r.number) string(); new (&r.organization) string(); new (&r.pages) string(); new (&r.publisher) string(); new (&r.school) string(school); new (&r.series) string(); new (&r.title) string(title); new (&r.type) string(type); new (&r.url) string(); new (&r.doi) string(); new (&r.volume) string(); new (&r.year) string(year); new (&r.bibKey) string(bibKey); r.publType = LR::mastersthesis; }
void w_make_Misc(LiteratureMisc &r, const string &bibKey, const string &author, const string &title, const string &howpublished, const string &month, const string &year, const string &note, const string &key) { new (&r) LiteratureMisc(bibKey, author, title, howpublished, month, year, note, key); }
void r_make_Misc(LiteratureMisc &r, const string &bibKey, const string &author, const string &title, const string &howpublished, const string &month, const string &year, const string &note, const string &key) { new (&r.address) string(); new (&r.annote) string(); new (&r.author) string(author); new (&r.booktitle) string(); new (&r.chapter) string(); new (&r.crossref) string(); new (&r.edition) string(); new (&r.editor) string(); new (&r.eprint) string(); new (&r.howpublished) string(howpublished); new (&r.institution) string(); new (&r.journal) string(); new (&r.key) string(key); new (&r.month) string(month); new (&r.note) string(note); new (&r.number) string(); new (&r.organization) string(); new (&r.pages) string(); new (&r.publisher) string(); new (&r.school) string(); new (&r.series) string(); new (&r.title) string(title); new (&r.type) string(); new (&r.url) string(); new (&r.doi) string(); new (&r.volume) string(); new (&r.year) string(year); new (&r.bibKey) string(bibKey); r.publType = LR::misc; }
void w_make_PhdThesis(LiteraturePhdThesis &r, const string &bibKey, const string &author, const string &title, const string &school, const string &year, const string &type, const string &address, const string &month, const string &note, const string &key) { new (&r) LiteraturePhdThesis(bibKey, author, title, school, year, type, address, month, note, key); }
void r_make_PhdThesis(LiteraturePhdThesis &r, const string &bibKey, const string &author, const string &title, const string &school, const string &year, const string &type, const string &address, const string &month, const string &note, const string &key) { new (&r.address) string(address); new (&r.annote) string(); new (&r.author) string(author); new (&r.booktitle) string(); new (&r.chapter) string(); new (&r.crossref) string(); new (&r.edition) string(); new (&r.editor) string(); new (&r.eprint) string(); new (&r.howpublished) string(); new (&r.institution) string(); new (&r.journal) string(); new (&r.key) string(key); new (&r.month) string(month); new (&r.note) string(note); new (&r.number) string(); new (&r.organization) string(); new (&r.pages) string(); new (&r.publisher) string(); new (&r.school) string(school); new (&r.series) string(); new (&r.title) string(title); new (&r.type) string(type); new (&r.url) string(); new (&r.doi) string(); new (&r.volume) string(); new (&r.year) string(year); new (&r.bibKey) string(bibKey); r.publType = LR::phdthesis; }
void w_make_Proceedings(LiteratureProceedings &r, const string &bibKey, const string &title, const string &year, const string &editor, const string &volume, const string &number, const string &series, const string &address, const string &month, const string &organization, const string &publisher, const string &note, const string &key) { new (&r) LiteratureProceedings(bibKey, title, year, editor, volume, number, series, address, month, organization, publisher, note, key); }
void r_make_Proceedings(LiteratureProceedings &r, const string &bibKey, const string &title, const string &year, const string &editor, const string &volume, const string &number, const string &series, const string &address, const string &month, const string &organization, const string &publisher, const string &note, const string &key) { new (&r.address) string(address); new (&r.annote) string(); new (&r.author) string(); new (&r.booktitle) string(); new (&r.chapter) string(); new (&r.crossref) string(); new (&r.edition) string(); new (&r.editor) string(editor); new (&r.eprint) string(); new (&r.howpublished) string(); new (&r.institution) string(); new (&r.journal) string(); new (&r.key) string(key); new (&r.month) string(month); new (&r.note) string(note); new (&r.number) string(number); new (&r.organization) string(organization); new (&r.pages) string(); new (&r.publisher) string(publisher); new (&r.school) string(); new (&r.series) string(series); new (&r.title) string(title); new (&r.type) string(); new (&r.url) string(); new (&r.doi) string(); new (&r.volume) string(volume); new (&r.year) string(year); new (&r.bibKey) string(bibKey); r.publType = LR::proceedings; }
void w_make_TechReport(LiteratureTechReport &r, const string &bibKey, const string &author, const string &title, const string &institution, const string &year, const string &type, const string &number, const string &address, const string &month, const string &note, const string &key) { new (&r) LiteratureTechReport(bibKey, author, title, institution, year, type, number, address, month, note, key); }
void r_make_TechReport(LiteratureTechReport &r, const string &bibKey, const string &author, const string &title, const string &institution, const string &year, const string &type, const string &number, const string &address, const string &month, const string &note, const string &key) { new (&r.address) string(address); new (&r.annote) string(); new (&r.author) string(author); new (&r.booktitle) string(); new (&r.chapter) string(); new (&r.crossref) string(); new (&r.edition) string(); new (&r.editor) string(); new (&r.eprint) string(); new (&r.howpublished) string(); new (&r.institution) string(institution); new (&r.journal) string(); new (&r.key) string(key); new (&r.month) string(month); new (&r.note) string(note); new (&r.number) string(number); new (&r.organization) string(); new (&r.pages) string(); new (&r.publisher) string(); new (&r.school) string(); new (&r.series) string(); new (&r.title) string(title); new (&r.type) string(type); new (&r.url) string(); new (&r.doi) string(); new (&r.volume) string(); new (&r.year) string(year); new (&r.bibKey) string(bibKey); r.publType = LR::techreport; }
void w_make_Unpublished(LiteratureUnpublished &r, const string &bibKey, const string &author, const string &title, const string &note, const string &year, const string &month, const string &key) { new (&r) LiteratureUnpublished(bibKey, author, title, note, year, month, key); }
void r_make_Unpublished(LiteratureUnpublished &r, const string &bibKey, const string &author, const string &title, const string &note, const string &year, const string &month, const string &key) { new (&r.address) string(); new (&r.annote) string(); new (&r.author) string(author); new (&r.booktitle) string(); new (&r.chapter) string(); new (&r.crossref) string(); new (&r.edition) string(); new (&r.editor) string(); new (&r.eprint) string(); new (&r.howpublished) string(); new (&r.institution) string(); new (&r.journal) string(); new (&r.key) string(key); new (&r.month) string(month); new (&r.note) string(note); new (&r.number) string(); new (&r.organization) string(); new (&r.pages) string(); new (&r.publisher) string(); new (&r.school) string(); new (&r.series) string(); new (&r.title) string(title); new (&r.type) string(); new (&r.url) string(); new (&r.doi) string(); new (&r.volume) string(); new (&r.year) string(year); new (&r.bibKey) string(bibKey); r.publType = LR::unpublished; }
std::ostream &w_print(std::ostream &out, const LR &r) { return out << r; }
std::ostream &r_print(std::ostream &out, const LR &r)
{
  out << "@" << r.getPublicationTypeString() << "{" << r.getBibKey();
  if (!r.author.empty()) out << ",\n  author={" << r.author << "}";
  if (!r.title.empty()) out << ",\n  title={" << r.title << "}";
  if (!r.journal.empty()) out << ",\n  journal={" << r.journal << "}";
  if (!r.booktitle.empty()) out << ",\n  booktitle={" << r.booktitle << "}";
  if (!r.edition.empty()) out << ",\n  edition={" << r.edition << "}";
  if (!r.volume.empty()) out << ",\n  volume={" << r.volume << "}";
  if (!r.chapter.empty()) out << ",\n  chapter={" << r.chapter << "}";
  if (!r.number.empty()) out << ",\n  number={" << r.number << "}";
  if (!r.month.empty()) out << ",\n  month={" << r.month << "}";
  if (!r.year.empty()) out << ",\n  year={" << r.year << "}";
  if (!r.pages.empty()) out << ",\n  pages={" << r.pages << "}";
  if (!r.editor.empty()) out << ",\n  editor={" << r.editor << "}";
  if (!r.series.empty()) out << ",\n  series={" << r.series << "}";
  if (!r.institution.empty()) out << ",\n  institution={" << r.institution << "}";
  if (!r.organization.empty()) out << ",\n  organization={" << r.organization << "}";
  if (!r.school.empty()) out << ",\n  school={" << r.school << "}";
  if (!r.publisher.empty()) out << ",\n  publisher={" << r.publisher << "}";
  if (!r.address.empty()) out << ",\n  address={" << r.address << "}";
  if (!r.annote.empty()) out << ",\n  annote={" << r.annote << "}";
  if (!r.crossref.empty()) out << ",\n  crossref={" << r.crossref << "}";
  if (!r.eprint.empty()) out << ",\n  eprint={" << r.eprint << "}";
  if (!r.howpublished.empty()) out << ",\n  howpublished={" << r.howpublished << "}";
  if (!r.key.empty()) out << ",\n  key={" << r.key << "}";
  if (!r.note.empty()) out << ",\n  note={" << r.note << "}";
  if (!r.type.empty()) out << ",\n  type={" << r.type << "}";
  if (!r.url.empty()) out << ",\n  url={" << r.url << "}";
  if (!r.doi.empty()) out << ",\n  doi={" << r.doi << "}";
  out << "\n}\n\n";
  return out;
}
void w_add(LM &m, const string &d, const LR &r) { m.addReference(d, r); }
void r_add(LM &m, const string &d, const LR &r)
{
  string k = r.getBibKey();
  if (m.records.find(k) != m.records.end()) m.records[k].first.insert(d);
  else
  {
    LM::LitRecord rec;
    rec.first.insert(d);
    rec.second = r;
    m.records.insert(LM::Records::value_type(k, rec));
  }
}
void r_add2(LM &m, const string &d, const LR &r)
{
  string k = r.getBibKey();
  if (m.records.find(k) != m.records.end()) m.records[k].first.insert(d);
  else
  {
    LM::LitRecord &rec = m.records[k];
    rec.first.insert(d);
    rec.second = r;
  }
}
void w_bib(LM &m, std::ostream &o) { m.writeBibTex(o); }
void r_bib(LM &m, std::ostream &o) { for (const LM::Records::value_type &e: m.records) o << e.second.second << std::endl; }
void r_bib2(LM &m, std::ostream &o) { for (LM::Records::value_type e: m.records) o << e.second.second << std::endl; }
void w_info(LM &m, std::ostream &o, const string &b) { m.writeInformation(o, b); }
void r_info(LM &m, std::ostream &o, const string &b)
{
  o << "\\documentclass{article}\n" << "\\begin{document}\n" << "\\section*{" << m.title << "}\n" << m.subtitle << "\n\\begin{itemize}";
  for (const LM::Records::value_type &e: m.records)
  {
    o << "\\item ";
    for (const string &d: e.second.first) o << d << "\n";
    o << "\\cite{" << e.first << "}\n";
  }
  o << "\\end{itemize}\n" << "\\bibliographystyle{acm}\n" << "\\bibliography{" << b << "}\n" << "\\end{document}\n";
}
const string &w_title(const LM &m) { return m.getTitle(); }
const string &r_title(const LM &m) { return m.title; }
const string &w_subtitle(const LM &m) { return m.getSubtitle(); }
const string &r_subtitle(const LM &m) { return m.subtitle; }
void w_setTitle(LM &m, const string &t) { m.setTitle(t); }
void r_setTitle(LM &m, const string &t) { m.title = t; }
void w_setSubtitle(LM &m, const string &t) { m.setSubtitle(t); }
void r_setSubtitle(LM &m, const string &t) { m.subtitle = t; }
LM &w_manager() { return LM::instance(); }
LM &r_manager() { if (!Singleton<LM>::pInstance) Singleton<LM>::pInstance = new LM(); return *Singleton<LM>::pInstance; }
}
