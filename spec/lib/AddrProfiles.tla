---------------------------- MODULE AddrProfiles ----------------------------
(* The supported networks: how each writes an address or key as text.       *)
EXTENDS Naturals, Sequences
B58   == "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
XRP58 == "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"
B32   == "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
NoAlpha == ""
Profiles == <<
  [name |-> "BTC_mainnetAddressP2PKH", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<0>>, suf |-> <<>>],
  [name |-> "BTC_mainnetAddressP2SH", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<5>>, suf |-> <<>>],
  [name |-> "BTC_mainnetAddressBech32V0", enc |-> "bech32", alpha |-> B32, chk |-> "bc", hash |-> "h160", len |-> 20, pre |-> <<0>>, suf |-> <<>>],
  [name |-> "BTC_mainnetPrivateWIF", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 32, pre |-> <<128>>, suf |-> <<>>],
  [name |-> "BTC_mainnetPrivateWIFCompressed", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 32, pre |-> <<128>>, suf |-> <<1>>],
  [name |-> "BTC_mainnetPublicBIP32", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 74, pre |-> <<4,136,178,30>>, suf |-> <<>>],
  [name |-> "BTC_mainnetPrivateBIP32", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 74, pre |-> <<4,136,173,228>>, suf |-> <<>>],
  [name |-> "BTC_testnetAddressP2PKH", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<111>>, suf |-> <<>>],
  [name |-> "BTC_testnetAddressP2SH", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<196>>, suf |-> <<>>],
  [name |-> "BTC_testnetAddressBech32V0", enc |-> "bech32", alpha |-> B32, chk |-> "tb", hash |-> "h160", len |-> 20, pre |-> <<0>>, suf |-> <<>>],
  [name |-> "BTC_testnetPrivateWIF", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 32, pre |-> <<239>>, suf |-> <<>>],
  [name |-> "BTC_testnetPrivateWIFCompressed", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 32, pre |-> <<239>>, suf |-> <<1>>],
  [name |-> "BTC_testnetPublicBIP32", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 74, pre |-> <<4,53,135,207>>, suf |-> <<>>],
  [name |-> "BTC_testnetPrivateBIP32", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 74, pre |-> <<4,53,131,148>>, suf |-> <<>>],
  [name |-> "XMR_mainnetPublicAddress", enc |-> "XMR", alpha |-> B58, chk |-> "keccak256", hash |-> "", len |-> 64, pre |-> <<18>>, suf |-> <<>>],
  [name |-> "XMR_mainnetPublicSubAddress", enc |-> "XMR", alpha |-> B58, chk |-> "keccak256", hash |-> "", len |-> 64, pre |-> <<42>>, suf |-> <<>>],
  [name |-> "XMR_mainnetPublicIntegratedAddress", enc |-> "XMR", alpha |-> B58, chk |-> "keccak256", hash |-> "payID", len |-> 72, pre |-> <<19>>, suf |-> <<>>],
  [name |-> "XMR_testnetPublicAddress", enc |-> "XMR", alpha |-> B58, chk |-> "keccak256", hash |-> "", len |-> 64, pre |-> <<53>>, suf |-> <<>>],
  [name |-> "XMR_testnetPublicSubAddress", enc |-> "XMR", alpha |-> B58, chk |-> "keccak256", hash |-> "", len |-> 64, pre |-> <<63>>, suf |-> <<>>],
  [name |-> "XMR_testnetPublicIntegratedAddress", enc |-> "XMR", alpha |-> B58, chk |-> "keccak256", hash |-> "payID", len |-> 72, pre |-> <<54>>, suf |-> <<>>],
  [name |-> "DOGE_multiSignAddressP2PKH", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<22>>, suf |-> <<>>],
  [name |-> "ONT_Address", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<23>>, suf |-> <<>>],
  [name |-> "XRP_Address", enc |-> "base58", alpha |-> XRP58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<0>>, suf |-> <<>>],
  [name |-> "BTM_mainnetAddressBech32V0", enc |-> "bech32", alpha |-> B32, chk |-> "bm", hash |-> "h160", len |-> 20, pre |-> <<0>>, suf |-> <<>>],
  [name |-> "BTM_testnetAddressBech32V0", enc |-> "bech32", alpha |-> B32, chk |-> "tm", hash |-> "h160", len |-> 20, pre |-> <<0>>, suf |-> <<>>],
  [name |-> "ZEC_mainnet_t_AddressP2PKH", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<28,184>>, suf |-> <<>>],
  [name |-> "ZEC_mainnet_t_AddressP2SH", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<28,189>>, suf |-> <<>>],
  [name |-> "ZEC_testnet_t_AddressP2PKH", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<29,37>>, suf |-> <<>>],
  [name |-> "ZEC_testnet_t_AddressP2SH", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<28,186>>, suf |-> <<>>],
  [name |-> "LTC_mainnetAddressP2PKH", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<48>>, suf |-> <<>>],
  [name |-> "LTC_mainnetAddressP2SH", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<5>>, suf |-> <<>>],
  [name |-> "LTC_mainnetAddressP2SH2", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<50>>, suf |-> <<>>],
  [name |-> "LTC_mainnetAddressBech32V0", enc |-> "bech32", alpha |-> B32, chk |-> "ltc", hash |-> "h160", len |-> 20, pre |-> <<0>>, suf |-> <<>>],
  [name |-> "LTC_mainnetPrivateWIF", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 32, pre |-> <<176>>, suf |-> <<>>],
  [name |-> "LTC_mainnetPrivateWIFCompressed", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 32, pre |-> <<176>>, suf |-> <<1>>],
  [name |-> "LTC_mainnetPublicBIP32", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 74, pre |-> <<4,136,178,30>>, suf |-> <<>>],
  [name |-> "LTC_mainnetPrivateBIP32", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 74, pre |-> <<4,136,173,228>>, suf |-> <<>>],
  [name |-> "LTC_testnetAddressP2PKH", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<111>>, suf |-> <<>>],
  [name |-> "LTC_testnetAddressP2SH", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<196>>, suf |-> <<>>],
  [name |-> "LTC_testnetAddressP2SH2", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<58>>, suf |-> <<>>],
  [name |-> "LTC_testnetAddressBech32V0", enc |-> "bech32", alpha |-> B32, chk |-> "tltc", hash |-> "h160", len |-> 20, pre |-> <<0>>, suf |-> <<>>],
  [name |-> "LTC_testnetPrivateWIF", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 32, pre |-> <<239>>, suf |-> <<>>],
  [name |-> "LTC_testnetPrivateWIFCompressed", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 32, pre |-> <<239>>, suf |-> <<1>>],
  [name |-> "LTC_testnetPublicBIP32", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 74, pre |-> <<4,53,135,207>>, suf |-> <<>>],
  [name |-> "LTC_testnetPrivateBIP32", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 74, pre |-> <<4,53,131,148>>, suf |-> <<>>],
  [name |-> "BCH_mainnetAddressLegacy", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<0>>, suf |-> <<>>],
  [name |-> "BCH_mainnetAddressCash", enc |-> "base32PolyMod", alpha |-> B32, chk |-> "bitcoincash", hash |-> "h160", len |-> 21, pre |-> <<>>, suf |-> <<>>],
  [name |-> "XTZ_mainnetAddress_tz1", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "blake2b160", len |-> 20, pre |-> <<6,161,159>>, suf |-> <<>>],
  [name |-> "XTZ_mainnetAddress_tz2", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "blake2b160", len |-> 20, pre |-> <<6,161,161>>, suf |-> <<>>],
  [name |-> "XTZ_mainnetAddress_tz3", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "blake2b160", len |-> 20, pre |-> <<6,161,164>>, suf |-> <<>>],
  [name |-> "XTZ_mainnetPublic_edpk", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 32, pre |-> <<13,15,37,217>>, suf |-> <<>>],
  [name |-> "XTZ_mainnetPrivate_edsk", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 64, pre |-> <<13,15,58,7>>, suf |-> <<>>],
  [name |-> "XTZ_mainnetPrivate_edsk2", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 32, pre |-> <<43,246,78,7>>, suf |-> <<>>],
  [name |-> "XTZ_mainnetPrivate_spsk", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 32, pre |-> <<17,162,224,201>>, suf |-> <<>>],
  [name |-> "XTZ_mainnetPrivate_p2sk", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "blake2b160", len |-> 32, pre |-> <<16,81,238,189>>, suf |-> <<>>],
  [name |-> "ETH_mainnetPublicAddress", enc |-> "eip55", alpha |-> NoAlpha, chk |-> "", hash |-> "keccak256", len |-> 32, pre |-> <<>>, suf |-> <<>>],
  [name |-> "QTUM_mainnetAddressP2PKH", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<58>>, suf |-> <<>>],
  [name |-> "QTUM_mainnetAddressP2SH", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<50>>, suf |-> <<>>],
  [name |-> "QTUM_mainnetPrivateWIF", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 32, pre |-> <<128>>, suf |-> <<>>],
  [name |-> "QTUM_mainnetPrivateWIFCompressed", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 32, pre |-> <<128>>, suf |-> <<1>>],
  [name |-> "QTUM_mainnetPublicBIP32", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 74, pre |-> <<4,136,178,30>>, suf |-> <<>>],
  [name |-> "QTUM_mainnetPrivateBIP32", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 74, pre |-> <<4,136,173,228>>, suf |-> <<>>],
  [name |-> "QTUM_testnetAddressP2PKH", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<120>>, suf |-> <<>>],
  [name |-> "QTUM_testnetAddressP2SH", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<110>>, suf |-> <<>>],
  [name |-> "QTUM_testnetPrivateWIF", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 32, pre |-> <<239>>, suf |-> <<>>],
  [name |-> "QTUM_testnetPrivateWIFCompressed", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 32, pre |-> <<239>>, suf |-> <<1>>],
  [name |-> "QTUM_testnetPublicBIP32", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 74, pre |-> <<4,53,135,207>>, suf |-> <<>>],
  [name |-> "QTUM_testnetPrivateBIP32", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 74, pre |-> <<4,53,131,148>>, suf |-> <<>>],
  [name |-> "DCRD_mainnetAddressP2PKH", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "ripemd160", len |-> 20, pre |-> <<7,63>>, suf |-> <<>>],
  [name |-> "DCRD_mainnetAddressP2PK", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "ripemd160", len |-> 20, pre |-> <<19,134>>, suf |-> <<>>],
  [name |-> "DCRD_mainnetAddressPKHEdwards", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "ripemd160", len |-> 20, pre |-> <<7,31>>, suf |-> <<>>],
  [name |-> "DCRD_mainnetAddressPKHSchnorr", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "ripemd160", len |-> 20, pre |-> <<7,1>>, suf |-> <<>>],
  [name |-> "DCRD_mainnetAddressP2SH", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "ripemd160", len |-> 20, pre |-> <<7,26>>, suf |-> <<>>],
  [name |-> "DCRD_mainnetAddressPrivate", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "ripemd160", len |-> 20, pre |-> <<34,222>>, suf |-> <<>>],
  [name |-> "DCRD_testnetAddressP2PKH", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "ripemd160", len |-> 20, pre |-> <<15,33>>, suf |-> <<>>],
  [name |-> "DCRD_testnetAddressP2PK", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "ripemd160", len |-> 20, pre |-> <<40,247>>, suf |-> <<>>],
  [name |-> "DCRD_testnetAddressPKHEdwards", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "ripemd160", len |-> 20, pre |-> <<15,1>>, suf |-> <<>>],
  [name |-> "DCRD_testnetAddressP2PKHSchnorr", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "ripemd160", len |-> 20, pre |-> <<14,227>>, suf |-> <<>>],
  [name |-> "DCRD_testnetAddressP2SH", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "ripemd160", len |-> 20, pre |-> <<14,252>>, suf |-> <<>>],
  [name |-> "DCRD_testnetAddressPrivate", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "ripemd160", len |-> 20, pre |-> <<35,14>>, suf |-> <<>>],
  [name |-> "DCRD_simnetAddressP2PKH", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "ripemd160", len |-> 20, pre |-> <<14,145>>, suf |-> <<>>],
  [name |-> "DCRD_simnetAddressP2PK", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "ripemd160", len |-> 20, pre |-> <<39,111>>, suf |-> <<>>],
  [name |-> "DCRD_simnetAddressPKHEdwards", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "ripemd160", len |-> 20, pre |-> <<14,113>>, suf |-> <<>>],
  [name |-> "DCRD_simnetAddressPKHSchnorr", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "ripemd160", len |-> 20, pre |-> <<14,83>>, suf |-> <<>>],
  [name |-> "DCRD_simnetAddressP2SH", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "ripemd160", len |-> 20, pre |-> <<14,108>>, suf |-> <<>>],
  [name |-> "DCRD_simnetAddressPrivate", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "ripemd160", len |-> 20, pre |-> <<35,7>>, suf |-> <<>>],
  [name |-> "NAS_AccountAddress", enc |-> "base58", alpha |-> B58, chk |-> "sha3_256", hash |-> "sha3_256_ripemd160", len |-> 20, pre |-> <<25,87>>, suf |-> <<>>],
  [name |-> "NAS_SmartContractAddress", enc |-> "base58", alpha |-> B58, chk |-> "sha3_256", hash |-> "sha3_256_ripemd160", len |-> 20, pre |-> <<25,88>>, suf |-> <<>>],
  [name |-> "TRON_mainnetAddress", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "keccak256_last_twenty", len |-> 20, pre |-> <<65>>, suf |-> <<>>],
  [name |-> "TRON_testnetAddress", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "keccak256_last_twenty", len |-> 20, pre |-> <<160>>, suf |-> <<>>],
  [name |-> "ICX_walletAddress", enc |-> "ICX", alpha |-> NoAlpha, chk |-> "hx", hash |-> "sha3_256_last_twenty", len |-> 20, pre |-> <<>>, suf |-> <<>>],
  [name |-> "VSYS_mainnetAddress", enc |-> "base58", alpha |-> B58, chk |-> "blake2b_and_keccak256_first_twenty", hash |-> "blake2b_and_keccak256_first_twenty", len |-> 20, pre |-> <<5,77>>, suf |-> <<>>],
  [name |-> "VSYS_testnetAddress", enc |-> "base58", alpha |-> B58, chk |-> "blake2b_and_keccak256_first_twenty", hash |-> "blake2b_and_keccak256_first_twenty", len |-> 20, pre |-> <<5,84>>, suf |-> <<>>],
  [name |-> "EOS_mainnetPublic", enc |-> "eos", alpha |-> B58, chk |-> "ripemd160", hash |-> "", len |-> 33, pre |-> <<69,79,83>>, suf |-> <<>>],
  [name |-> "EOS_mainnetPrivateWIF", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 32, pre |-> <<128>>, suf |-> <<>>],
  [name |-> "EOS_mainnetPrivateWIFCompressed", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 32, pre |-> <<128>>, suf |-> <<1>>],
  [name |-> "AE_mainnetAddress", enc |-> "aeternity", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "", len |-> 32, pre |-> <<97,107,95>>, suf |-> <<>>],
  [name |-> "ATOM_mainnetAddress", enc |-> "bech32", alpha |-> B32, chk |-> "cosmos", hash |-> "h160", len |-> 20, pre |-> <<>>, suf |-> <<>>],
  [name |-> "ATOM_testnetAddress", enc |-> "bech32", alpha |-> B32, chk |-> "cosmos", hash |-> "h160", len |-> 20, pre |-> <<>>, suf |-> <<>>],
  [name |-> "ELA_Address", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<33>>, suf |-> <<>>],
  [name |-> "WICC_mainnetAddressP2PKH", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<73>>, suf |-> <<>>],
  [name |-> "WICC_testnetAddressP2PKH", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<135>>, suf |-> <<>>],
  [name |-> "TV_mainnetAddress", enc |-> "base58", alpha |-> B58, chk |-> "blake2b_and_keccak256_first_twenty", hash |-> "blake2b_and_keccak256_first_twenty", len |-> 20, pre |-> <<29,59>>, suf |-> <<>>],
  [name |-> "TV_testnetAddress", enc |-> "base58", alpha |-> B58, chk |-> "blake2b_and_keccak256_first_twenty", hash |-> "blake2b_and_keccak256_first_twenty", len |-> 20, pre |-> <<29,84>>, suf |-> <<>>],
  [name |-> "HC_mainnetPublicAddress", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "h160", len |-> 20, pre |-> <<9,127>>, suf |-> <<>>],
  [name |-> "HC_mainnetAddressP2PK", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "h160", len |-> 20, pre |-> <<25,164>>, suf |-> <<>>],
  [name |-> "HC_mainnetAddressP2PKBliss", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "h160", len |-> 20, pre |-> <<7,195>>, suf |-> <<>>],
  [name |-> "HC_mainnetAddressP2PKH", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "h160", len |-> 20, pre |-> <<9,127>>, suf |-> <<>>],
  [name |-> "HC_mainnetAddressPKHEdwards", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "h160", len |-> 20, pre |-> <<9,96>>, suf |-> <<>>],
  [name |-> "HC_mainnetAddressPKHSchnorr", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "h160", len |-> 20, pre |-> <<9,65>>, suf |-> <<>>],
  [name |-> "HC_mainnetAddressPKHBliss", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "h160", len |-> 20, pre |-> <<9,88>>, suf |-> <<>>],
  [name |-> "HC_mainnetAddressP2SH", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "h160", len |-> 20, pre |-> <<9,90>>, suf |-> <<>>],
  [name |-> "HC_mainnetAddressPrivate", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "h160", len |-> 20, pre |-> <<25,171>>, suf |-> <<>>],
  [name |-> "HC_testnetAddressP2PK", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "h160", len |-> 20, pre |-> <<40,247>>, suf |-> <<>>],
  [name |-> "HC_testnetAddressP2PKBliss", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "h160", len |-> 20, pre |-> <<12,102>>, suf |-> <<>>],
  [name |-> "HC_testnetAddressP2PKH", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "h160", len |-> 20, pre |-> <<15,33>>, suf |-> <<>>],
  [name |-> "HC_testnetAddressPKHEdwards", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "h160", len |-> 20, pre |-> <<15,1>>, suf |-> <<>>],
  [name |-> "HC_testnetAddressP2PKHSchnorr", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "h160", len |-> 20, pre |-> <<14,227>>, suf |-> <<>>],
  [name |-> "HC_testnetAddressPKHBliss", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "h160", len |-> 20, pre |-> <<14,249>>, suf |-> <<>>],
  [name |-> "HC_testnetAddressP2SH", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "h160", len |-> 20, pre |-> <<14,252>>, suf |-> <<>>],
  [name |-> "HC_testnetAddressPrivate", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "h160", len |-> 20, pre |-> <<35,14>>, suf |-> <<>>],
  [name |-> "HC_simnetAddressP2PK", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "h160", len |-> 20, pre |-> <<39,111>>, suf |-> <<>>],
  [name |-> "HC_simnetAddressP2PKBliss", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "h160", len |-> 20, pre |-> <<11,239>>, suf |-> <<>>],
  [name |-> "HC_simnetAddressP2PKH", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "h160", len |-> 20, pre |-> <<14,145>>, suf |-> <<>>],
  [name |-> "HC_simnetAddressPKHEdwards", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "h160", len |-> 20, pre |-> <<14,113>>, suf |-> <<>>],
  [name |-> "HC_simnetAddressPKHSchnorr", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "h160", len |-> 20, pre |-> <<14,83>>, suf |-> <<>>],
  [name |-> "HC_simnetAddressPKHBliss", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "h160", len |-> 20, pre |-> <<14,105>>, suf |-> <<>>],
  [name |-> "HC_simnetAddressP2SH", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "h160", len |-> 20, pre |-> <<14,108>>, suf |-> <<>>],
  [name |-> "HC_simnetAddressPrivate", enc |-> "base58", alpha |-> B58, chk |-> "doubleBlake256", hash |-> "h160", len |-> 20, pre |-> <<35,7>>, suf |-> <<>>],
  [name |-> "BNB_mainnetAddress", enc |-> "bech32", alpha |-> B32, chk |-> "bnb", hash |-> "h160", len |-> 20, pre |-> <<>>, suf |-> <<>>],
  [name |-> "BSV_mainnetAddressP2PKH", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<0>>, suf |-> <<>>],
  [name |-> "BSV_mainnetAddressP2SH", enc |-> "base58", alpha |-> B58, chk |-> "doubleSHA256", hash |-> "h160", len |-> 20, pre |-> <<5>>, suf |-> <<>>],
  [name |-> "EVA_mainnetAddress", enc |-> "bech32", alpha |-> B32, chk |-> "eva", hash |-> "h160", len |-> 20, pre |-> <<>>, suf |-> <<>>],
  [name |-> "EVA_testnetAddress", enc |-> "bech32", alpha |-> B32, chk |-> "eva", hash |-> "h160", len |-> 20, pre |-> <<>>, suf |-> <<>>],
  [name |-> "XCH_mainnetAddress", enc |-> "bech32m", alpha |-> B32, chk |-> "xch", hash |-> "", len |-> 32, pre |-> <<>>, suf |-> <<>>]
>>
ProfileNames == {Profiles[i].name : i \in 1..Len(Profiles)}
Profile == [n \in ProfileNames |-> Profiles[CHOOSE i \in 1..Len(Profiles) : Profiles[i].name = n]]
=============================================================================
