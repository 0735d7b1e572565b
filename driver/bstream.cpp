#include "drv.h"
#include <fstream>
#include <stdexcept>
#include "FileStream.h"
#include "MemoryStream.h"
#include "SecureStream.h"
using namespace CEX::IO;

static std::string at(IByteStream &s) { return " " + std::to_string(s.Position()) + "/" + std::to_string(s.Length()); }
static std::string caps(IByteStream &s) { return std::string(s.CanRead() ? "r" : "-") + (s.CanWrite() ? "w" : "-") + (s.CanSeek() ? "s" : "-"); }
// bs.new NAME mem|sec HOW BYTES ...: none, array, part OFF N (of BYTES), room N
CMD("bs.new")
{
	Bytes b = a.size() > 3 ? c.bytes(a[3]) : Bytes();
	const std::string &h = a[2];
	IByteStream* s;
	if (a[1] == "mem") s = h == "none" ? new MemoryStream() : h == "array" ? new MemoryStream(b) : h == "part" ? new MemoryStream(b, num(a[4]), num(a[5])) : new MemoryStream(static_cast<size_t>(num(a[4])));
	else
	{
		uint64_t salt = h == "none" ? 0 : unum(a.back());
		s = h == "none" ? new SecureStream() : h == "array" ? new SecureStream(b, salt) : h == "part" ? new SecureStream(b, num(a[4]), num(a[5]), salt) : new SecureStream(static_cast<size_t>(num(a[4])), salt);
	}
	c.put<IByteStream>(a[0], s);
	return caps(*s) + at(*s);
}
CMD("bs.open")
{
	FileStream* s = new FileStream(a[1], a[2] == "r" ? FileStream::FileAccess::Read : a[2] == "w" ? FileStream::FileAccess::Write : FileStream::FileAccess::ReadWrite,
		a[3] == "atend" ? FileStream::FileModes::AtEnd : a[3] == "truncate" ? FileStream::FileModes::Truncate : FileStream::FileModes::Binary);
	c.put<IByteStream>(a[0], s);
	return caps(*s) + at(*s);
}
CMD("bs.write")
{
	IByteStream &s = c.get<IByteStream>(a[0]);
	Bytes b = c.bytes(a[1]);
	s.Write(b, num(a[2]), num(a[3]));
	return "ok" + at(s);
}
CMD("bs.writebyte") { IByteStream &s = c.get<IByteStream>(a[0]); s.WriteByte(c.bytes(a[1])[0]); return "ok" + at(s); }
CMD("bs.read")
{
	IByteStream &s = c.get<IByteStream>(a[0]);
	Bytes o(num(a[1]), 0xa5);
	size_t n = s.Read(o, num(a[2]), num(a[3]));
	return std::to_string(n) + " " + hex(o) + at(s);
}
CMD("bs.readbyte") { IByteStream &s = c.get<IByteStream>(a[0]); uint8_t v = s.ReadByte(); return hex(&v, 1) + at(s); }
CMD("bs.seek")
{
	IByteStream &s = c.get<IByteStream>(a[0]);
	s.Seek(unum(a[2]), a[1] == "begin" ? SeekOrigin::Begin : a[1] == "end" ? SeekOrigin::End : SeekOrigin::Current);
	return "ok" + at(s);
}
CMD("bs.setlength") { IByteStream &s = c.get<IByteStream>(a[0]); s.SetLength(unum(a[1])); return "ok" + at(s); }
CMD("bs.reset") { IByteStream &s = c.get<IByteStream>(a[0]); s.Reset(); return "ok" + at(s); }
CMD("bs.close") { IByteStream &s = c.get<IByteStream>(a[0]); s.Close(); return "ok" + at(s); }
CMD("bs.copyto")
{
	IByteStream &s = c.get<IByteStream>(a[0]);
	MemoryStream d(c.bytes(a[1]));
	d.Seek(unum(a[2]), SeekOrigin::Begin);
	s.CopyTo(&d);
	std::string to = at(d);
	return hex(d.ToArray()) + to + at(s);
}
CMD("bs.toarray")
{
	IByteStream &s = c.get<IByteStream>(a[0]);
	if (a[1] == "mem") return hex(static_cast<MemoryStream&>(s).ToArray()) + at(s);
	return hex(static_cast<SecureStream&>(s).ToArray()) + at(s);
}
CMD("bs.copy")      // the copy takes the name; the original is changed and dropped
{
	IByteStream &s = c.get<IByteStream>(a[0]);
	MemoryStream* n = new MemoryStream(static_cast<MemoryStream&>(s));
	if (s.Length() > 0) { s.Seek(0, SeekOrigin::Begin); s.WriteByte(0x77); }
	s.Reset();
	c.put<IByteStream>(a[0], n);
	return "ok" + at(*n);
}
CMD("bs.disk.put") { Bytes b = c.bytes(a[1]); std::ofstream f(a[0], std::ios::binary | std::ios::trunc); if (b.size()) f.write(reinterpret_cast<char*>(b.data()), b.size()); return "ok"; }
CMD("bs.disk.get")
{
	std::ifstream f(a[0], std::ios::binary);
	if (!f) throw std::runtime_error("the file is gone");
	Bytes b((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
	return hex(b) + " " + std::to_string(FileStream::FileSize(a[0])) + (FileStream::FileExists(a[0]) ? "" : " missing");
}
CMD("bs.disk.del") { std::remove(a[0].c_str()); return FileStream::FileExists(a[0]) ? "there" : "ok"; }
CMD("bs.atrest")       // is a piece of the contents to be found in the memory of the process?
{
	c.get<IByteStream>(a[0]);
	Bytes b = c.bytes(a[1]);
	return livemem(b.data(), b.size(), b.data()) ? "found" : "ok";
}
