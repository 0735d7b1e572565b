// Block padding.
#include "drv.h"
#include "PaddingFromName.h"
#include "IPadding.h"
#include "PaddingModes.h"
using namespace CEX;
using Cipher::Block::Padding::IPadding;
using Enumeration::PaddingModes;

static PaddingModes pm(const std::string &n)
{
	return n == "ESP" ? PaddingModes::ESP : n == "PKCS7" ? PaddingModes::PKCS7 : n == "X923" ? PaddingModes::X923 : PaddingModes::ZeroOne;
}
// SCHEME message offset: the start of the padding found in message[offset..]
CMD("pad.len")
{
	std::unique_ptr<IPadding> p(Helper::PaddingFromName::GetInstance(pm(a[0])));
	Bytes m = c.bytes(a[1]);
	size_t o = num(a[2]), n = m.size();
	std::string r;
	if (o == 0) r = std::to_string(p->GetBlockLength(m)) + " ";
	m.push_back(1); m.push_back(0x80); m.push_back(3);
	return r + std::to_string(p->GetBlockLength(m, o, n));
}
// SCHEME message from: pads message[from..], with bytes behind it that stay
CMD("pad.add")
{
	std::unique_ptr<IPadding> p(Helper::PaddingFromName::GetInstance(pm(a[0])));
	Bytes m = c.bytes(a[1]);
	size_t n = m.size();
	m.push_back(0x77); m.push_back(0x78);
	p->AddPadding(m, num(a[2]), n);
	return hex(m);
}
CMD("pad.name")
{
	std::unique_ptr<IPadding> p(Helper::PaddingFromName::GetInstance(pm(a[0])));
	return p->Name() + " " + std::to_string(static_cast<int>(p->Enumeral()));
}
CMD("pad.bad")
{
	std::unique_ptr<IPadding> p(Helper::PaddingFromName::GetInstance(pm(a[0])));
	Bytes m(num(a[1]));
	if (a[2] == "add") p->AddPadding(m, 0, num(a[3])); else p->GetBlockLength(m, 0, num(a[3]));
	return "ok";
}
