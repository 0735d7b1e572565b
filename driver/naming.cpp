// Names of enumeration members and the factories made from them.
#include "drv.h"
#include "AeadModes.h"
#include "AsymmetricCiphers.h"
#include "AsymmetricParameters.h"
#include "AsymmetricPrimitives.h"
#include "AsymmetricSigners.h"
#include "BlockCiphers.h"
#include "CipherModes.h"
#include "Digests.h"
#include "DilithiumParameters.h"
#include "Drbgs.h"
#include "ECDHParameters.h"
#include "ECDSAParameters.h"
#include "ExceptionTypes.h"
#include "Kdfs.h"
#include "KmacModes.h"
#include "Kms.h"
#include "KpaModes.h"
#include "KyberParameters.h"
#include "Macs.h"
#include "McElieceParameters.h"
#include "PaddingModes.h"
#include "Prngs.h"
#include "Providers.h"
#include "SHA2Digests.h"
#include "SecurityPolicy.h"
#include "ShakeModes.h"
#include "SphincsPlusParameters.h"
#include "StreamAuthenticators.h"
#include "StreamCiphers.h"
#include "SymmetricCiphers.h"
#include "ThreefishModes.h"
#include "XmssParameters.h"
#include "AeadModeFromName.h"
#include "BlockCipherFromName.h"
#include "CipherModeFromName.h"
#include "DigestFromName.h"
#include "DrbgFromName.h"
#include "KdfFromName.h"
#include "MacFromName.h"
#include "PaddingFromName.h"
#include "PrngFromName.h"
#include "ProviderFromName.h"
#include "StreamCipherFromName.h"
#include "AsymmetricCipherFromName.h"
#include "AsymmetricSignerFromName.h"
#include "IAeadMode.h"
#include "IBlockCipher.h"
#include "ICipherMode.h"
#include "IDigest.h"
#include "IDrbg.h"
#include "IKdf.h"
#include "IMac.h"
#include "IPadding.h"
#include "IPrng.h"
#include "IProvider.h"
#include "IStreamCipher.h"
#include "IAsymmetricCipher.h"
#include "IAsymmetricSigner.h"
using namespace CEX;
using namespace CEX::Enumeration;
using namespace CEX::Helper;
typedef std::string S;

template <class E, class C> static S toname(long long v) { return C::ToName(static_cast<E>(v)); }
template <class E, class C> static long long fromname(S n) { return static_cast<long long>(C::FromName(n)); }
struct Conv { S (*to)(long long); long long (*from)(S); };
static const std::map<S, Conv> &convs()
{
	static std::map<S, Conv> m;
	if (m.empty())
	{
#define CONV(E, C) m[#E] = Conv{ toname<E, C>, fromname<E, C> };
	CONV(AeadModes, AeadModeConvert)
	CONV(AsymmetricCiphers, AsymmetricCipherConvert)
	CONV(AsymmetricParameters, AsymmetricTransformConvert)
	CONV(AsymmetricPrimitives, AsymmetricPrimitiveConvert)
	CONV(AsymmetricSigners, AsymmetricSignerConvert)
	CONV(BlockCiphers, BlockCipherConvert)
	CONV(CipherModes, CipherModeConvert)
	CONV(Digests, DigestConvert)
	CONV(DilithiumParameters, DilithiumParameterConvert)
	CONV(Drbgs, DrbgConvert)
	CONV(ECDHParameters, ECDHParameterConvert)
	CONV(ECDSAParameters, ECDSAParameterConvert)
	CONV(ExceptionTypes, ExceptionTypeConvert)
	CONV(Kdfs, KdfConvert)
	CONV(KmacModes, KmacModeConvert)
	CONV(Kms, KmsConvert)
	CONV(KpaModes, KbaModeConvert)
	CONV(KyberParameters, KyberParameterConvert)
	CONV(Macs, MacConvert)
	CONV(McElieceParameters, McElieceParameterConvert)
	CONV(PaddingModes, PaddingModeConvert)
	CONV(Prngs, PrngConvert)
	CONV(Providers, ProviderConvert)
	CONV(SHA2Digests, SHA2DigestConvert)
	CONV(SecurityPolicy, SecurityPolicyConvert)
	CONV(ShakeModes, ShakeModeConvert)
	CONV(SphincsPlusParameters, SphincsPlusParameterConvert)
	CONV(StreamAuthenticators, StreamAuthenticatorConvert)
	CONV(StreamCiphers, StreamCipherConvert)
	CONV(SymmetricCiphers, SymmetricCipherConvert)
	CONV(ThreefishModes, ThreefishModeConvert)
	CONV(XmssParameters, XmssParameterConvert)
	}
	return m;
}
// ENUM value: the member's name, and the member of that name
CMD("nm.round")
{
	const Conv &k = convs().at(a[0]);
	S n = k.to(num(a[1]));
	return "'" + n + "' " + std::to_string(k.from(n));
}
// ENUM name
CMD("nm.from") { return std::to_string(convs().at(a[0]).from(a[1])); }
CMD("nm.to") { return "'" + convs().at(a[0]).to(num(a[1])) + "'"; }
template <class T> static S dim(T v) { return std::to_string(static_cast<long long>(v)); }
template <class K> static S keys(const K &k)
{
	S r;
	for (auto e : k) { r += (r.empty() ? " " : ",") + dim(e.KeySize()) + "/" + dim(e.IVSize()) + "/" + dim(e.InfoSize()); }
	return r;
}
// FACTORY type [more]: type, name and sizes of the object made
CMD("nm.make")
{
	S f = a[0];
	long long v = num(a[1]), w = a.size() > 2 ? num(a[2]) : 0, x = a.size() > 3 ? num(a[3]) : 0;
	if (f == "digest") { std::unique_ptr<Digest::IDigest> p(DigestFromName::GetInstance(static_cast<Digests>(v), w != 0)); return dim(p->Enumeral()) + " '" + p->Name() + "' " + dim(p->DigestSize()) + " " + dim(p->BlockSize()) + " " + dim(p->IsParallel()); }
	if (f == "digestsizes") { Digests d = static_cast<Digests>(v); return dim(DigestFromName::GetDigestSize(d)) + " " + dim(DigestFromName::GetBlockSize(d)); }
	if (f == "mac") { std::unique_ptr<Mac::IMac> p(MacFromName::GetInstance(static_cast<Macs>(v))); return dim(p->Enumeral()) + " '" + p->Name() + "' " + dim(p->TagSize()) + keys(p->LegalKeySizes()); }
	if (f == "smac") { std::unique_ptr<Mac::IMac> p(MacFromName::GetInstance(static_cast<StreamAuthenticators>(v))); return dim(p->Enumeral()) + " '" + p->Name() + "' " + dim(p->TagSize()) + keys(p->LegalKeySizes()); }
	if (f == "kdf") { std::unique_ptr<Kdf::IKdf> p(KdfFromName::GetInstance(static_cast<Kdfs>(v))); return dim(p->Enumeral()) + " '" + p->Name() + "'" + keys(p->LegalKeySizes()); }
	if (f == "xkdf") { std::unique_ptr<Kdf::IKdf> p(KdfFromName::GetInstance(static_cast<BlockCipherExtensions>(v))); return dim(p->Enumeral()) + " '" + p->Name() + "'" + keys(p->LegalKeySizes()); }
	if (f == "dkdf") { std::unique_ptr<Kdf::IKdf> p(KdfFromName::GetInstance(static_cast<KdfDigests>(v))); return dim(p->Enumeral()) + " '" + p->Name() + "'" + keys(p->LegalKeySizes()); }
	if (f == "block") { std::unique_ptr<Cipher::Block::IBlockCipher> p(BlockCipherFromName::GetInstance(static_cast<BlockCiphers>(v))); return dim(p->Enumeral()) + " '" + p->Name() + "' " + dim(p->BlockSize()) + keys(p->LegalKeySizes()); }
	if (f == "mode" || f == "modep")
	{
		std::unique_ptr<Cipher::Block::IBlockCipher> b(f == "modep" ? BlockCipherFromName::GetInstance(static_cast<BlockCiphers>(v)) : nullptr);
		std::unique_ptr<Cipher::Block::Mode::ICipherMode> p(f == "modep" ? CipherModeFromName::GetInstance(b.get(), static_cast<CipherModes>(w)) : CipherModeFromName::GetInstance(static_cast<BlockCiphers>(v), static_cast<CipherModes>(w)));
		return dim(p->Enumeral()) + " '" + p->Name() + "' " + dim(p->CipherType()) + keys(p->LegalKeySizes());
	}
	if (f == "aead" || f == "aeadp")
	{
		std::unique_ptr<Cipher::Block::IBlockCipher> b(f == "aeadp" ? BlockCipherFromName::GetInstance(static_cast<BlockCiphers>(v)) : nullptr);
		std::unique_ptr<Cipher::Block::Mode::IAeadMode> p(f == "aeadp" ? AeadModeFromName::GetInstance(b.get(), static_cast<AeadModes>(w)) : AeadModeFromName::GetInstance(static_cast<BlockCiphers>(v), static_cast<AeadModes>(w)));
		return dim(p->Enumeral()) + " '" + p->Name() + "'" + keys(p->LegalKeySizes());
	}
	if (f == "stream") { std::unique_ptr<Cipher::Stream::IStreamCipher> p(StreamCipherFromName::GetInstance(static_cast<StreamCiphers>(v))); return dim(p->Enumeral()) + " '" + p->Name() + "' " + dim(p->IsAuthenticator()) + keys(p->LegalKeySizes()); }
	if (f == "drbg") { std::unique_ptr<Drbg::IDrbg> p(DrbgFromName::GetInstance(static_cast<Drbgs>(v))); return dim(p->Enumeral()) + " '" + p->Name() + "'" + keys(p->LegalKeySizes()); }
	if (f == "drbgx") { std::unique_ptr<Drbg::IDrbg> p(DrbgFromName::GetInstance(static_cast<Drbgs>(v), static_cast<Digests>(w), static_cast<Providers>(x))); return dim(p->Enumeral()) + " '" + p->Name() + "'" + keys(p->LegalKeySizes()); }
	if (f == "prng") { std::unique_ptr<Prng::IPrng> p(PrngFromName::GetInstance(static_cast<Prngs>(v), static_cast<Providers>(w))); return dim(p->Enumeral()) + " '" + p->Name() + "'"; }
	if (f == "provider") { std::unique_ptr<Provider::IProvider> p(ProviderFromName::GetInstance(static_cast<Providers>(v))); return dim(p->Enumeral()) + " '" + p->Name() + "'"; }
	if (f == "padding") { std::unique_ptr<Cipher::Block::Padding::IPadding> p(PaddingFromName::GetInstance(static_cast<PaddingModes>(v))); return dim(p->Enumeral()) + " '" + p->Name() + "'"; }
	if (f == "asym") { std::unique_ptr<Asymmetric::Encrypt::IAsymmetricCipher> p(AsymmetricCipherFromName::GetInstance(static_cast<AsymmetricCiphers>(v), static_cast<AsymmetricParameters>(w))); return dim(p->Enumeral()) + " '" + p->Name() + "'"; }
	if (f == "sign") { std::unique_ptr<Asymmetric::Sign::IAsymmetricSigner> p(AsymmetricSignerFromName::GetInstance(static_cast<AsymmetricSigners>(v), static_cast<AsymmetricParameters>(w))); return dim(p->Enumeral()) + " '" + p->Name() + "'"; }
	throw S("factory");
}
