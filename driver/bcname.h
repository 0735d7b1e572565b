#pragma once
#include "BlockCiphers.h"
#include <map>
#include <string>
// the driver's own names: independent of the library's conversions, which C19 checks
inline CEX::Enumeration::BlockCiphers bcname(const std::string &n)
{
	using B = CEX::Enumeration::BlockCiphers;
	static const std::map<std::string, B> m = { {"AES", B::AES}, {"Serpent", B::Serpent},
		{"RHXH256", B::RHXH256}, {"RHXH512", B::RHXH512}, {"RHXS256", B::RHXS256}, {"RHXS512", B::RHXS512},
		{"SHXH256", B::SHXH256}, {"SHXH512", B::SHXH512}, {"SHXS256", B::SHXS256}, {"SHXS512", B::SHXS512} };
	return m.at(n);
}
