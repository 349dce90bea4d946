// Instantiates the JSON templates with opaque handlers and gives the checks access to the code's own constructors and accessors.
#include "reflect.h"
#include "utils/json.h"
#include <new>

using namespace reflect::json;

extern const unsigned long drv_sizeof_Reader = sizeof(Reader);
extern const unsigned long drv_sizeof_Writer = sizeof(Writer);
extern const unsigned long drv_sizeof_Token = sizeof(Token);

// opaque handlers: declared, never defined
struct OnItem { void operator()(size_t) const; };
struct OnField { void operator()(const std::string&) const; };
struct SkipItem { bool operator()(size_t) const; };
struct SkipField { bool operator()(const std::string&) const; };

void drv_reader(void* mem, std::istream& stream, int options) { new (mem) Reader(stream, Reader::Options(options)); }
void drv_readerError(Reader& reader) { reader.error("error"); }
bool drv_readerFailed(const Reader& reader) { return reader.error(); }
size_t drv_pos(const Reader& reader) { return reader.pos(); }
size_t drv_line(const Reader& reader) { return reader.line(); }
const std::string& drv_buffer(Reader& reader) { return reader.buffer(); }

void drv_token(void* mem, int type) { new (mem) Token(Token::Type(type)); }
void drv_tokenBool(void* mem, int type, bool value) { new (mem) Token(Token::Type(type), value); }
void drv_tokenString(void* mem, int type, const std::string& value) { new (mem) Token(Token::Type(type), value); }
Token drv_makeToken(int type) { return Token(Token::Type(type)); }
Token drv_makeTokenBool(int type, bool value) { return Token(Token::Type(type), value); }
Token drv_makeTokenString(int type, const std::string& value) { return Token(Token::Type(type), value); }
void drv_peek(Reader& reader) { reader.peekToken(); }
int drv_type(const Token& token) { return token.type(); }

void drv_writer(void* mem, std::ostream& stream, int options) { new (mem) Writer(stream, Writer::Options(options)); }
bool drv_writerFailed(const Writer& writer) { return writer.error(); }
void drv_writerError(Writer& writer) { writer.error("error"); }
void drv_indent(Writer& writer) { writer.indent(); }
std::vector<char>& drv_writerBuffer(Writer& writer) { return writer.buffer(); }

extern const unsigned long drv_sizeof_Traits = sizeof(Traits);
bool drv_traitsSkip(const Traits& traits) { return traits.skip; }
bool drv_traitsSkipEmpty(const Traits& traits) { return traits.skipEmpty; }
const std::string& drv_traitsAlias(const Traits& traits) { return traits.alias; }
const std::string& drv_traitsParser(const Traits& traits) { return traits.parser; }
const std::string& drv_traitsPrinter(const Traits& traits) { return traits.printer; }

// instantiations
void drv_parseNull(Reader& reader) { parseNull(reader); }
bool drv_parseBool(Reader& reader) { return parseBool(reader); }
int64_t drv_parseInt(Reader& reader) { return parseInt(reader); }
double drv_parseFloat(Reader& reader) { return parseFloat(reader); }
void drv_parseString(Reader& reader, std::string* out) { new (out) std::string(parseString(reader)); }
void drv_parseArray(Reader& reader, const OnItem& fn) { parseArray(reader, fn); }
void drv_parseObject(Reader& reader, const OnField& fn) { parseObject(reader, fn); }
void drv_skip(Reader& reader) { skip(reader); }
void drv_printArray(Writer& writer, size_t n, const OnItem& fn) { printArray(writer, n, fn); }
void drv_printArraySkip(Writer& writer, size_t n, const OnItem& fn, const SkipItem& skip) { printArray(writer, n, fn, skip); }
void drv_printObject(Writer& writer, const std::vector<std::string>& keys, const OnField& fn) { printObject(writer, keys, fn); }
void drv_printObjectSkip(Writer& writer, const std::vector<std::string>& keys, const OnField& fn, const SkipField& skip) { printObject(writer, keys, fn, skip); }
