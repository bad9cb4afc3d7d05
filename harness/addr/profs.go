//go:build go1.22

package main

import ae "github.com/blocktree/go-owcdrivers/addressEncoder"

type prof struct {
	name string
	t    *ae.AddressType
}

var profs = []prof{
	{"BTC_mainnetAddressP2PKH", &ae.BTC_mainnetAddressP2PKH},
	{"BTC_mainnetAddressP2SH", &ae.BTC_mainnetAddressP2SH},
	{"BTC_mainnetAddressBech32V0", &ae.BTC_mainnetAddressBech32V0},
	{"BTC_mainnetPrivateWIF", &ae.BTC_mainnetPrivateWIF},
	{"BTC_mainnetPrivateWIFCompressed", &ae.BTC_mainnetPrivateWIFCompressed},
	{"BTC_mainnetPublicBIP32", &ae.BTC_mainnetPublicBIP32},
	{"BTC_mainnetPrivateBIP32", &ae.BTC_mainnetPrivateBIP32},
	{"BTC_testnetAddressP2PKH", &ae.BTC_testnetAddressP2PKH},
	{"BTC_testnetAddressP2SH", &ae.BTC_testnetAddressP2SH},
	{"BTC_testnetAddressBech32V0", &ae.BTC_testnetAddressBech32V0},
	{"BTC_testnetPrivateWIF", &ae.BTC_testnetPrivateWIF},
	{"BTC_testnetPrivateWIFCompressed", &ae.BTC_testnetPrivateWIFCompressed},
	{"BTC_testnetPublicBIP32", &ae.BTC_testnetPublicBIP32},
	{"BTC_testnetPrivateBIP32", &ae.BTC_testnetPrivateBIP32},
	{"XMR_mainnetPublicAddress", &ae.XMR_mainnetPublicAddress},
	{"XMR_mainnetPublicSubAddress", &ae.XMR_mainnetPublicSubAddress},
	{"XMR_mainnetPublicIntegratedAddress", &ae.XMR_mainnetPublicIntegratedAddress},
	{"XMR_testnetPublicAddress", &ae.XMR_testnetPublicAddress},
	{"XMR_testnetPublicSubAddress", &ae.XMR_testnetPublicSubAddress},
	{"XMR_testnetPublicIntegratedAddress", &ae.XMR_testnetPublicIntegratedAddress},
	{"DOGE_multiSignAddressP2PKH", &ae.DOGE_multiSignAddressP2PKH},
	{"ONT_Address", &ae.ONT_Address},
	{"XRP_Address", &ae.XRP_Address},
	{"BTM_mainnetAddressBech32V0", &ae.BTM_mainnetAddressBech32V0},
	{"BTM_testnetAddressBech32V0", &ae.BTM_testnetAddressBech32V0},
	{"ZEC_mainnet_t_AddressP2PKH", &ae.ZEC_mainnet_t_AddressP2PKH},
	{"ZEC_mainnet_t_AddressP2SH", &ae.ZEC_mainnet_t_AddressP2SH},
	{"ZEC_testnet_t_AddressP2PKH", &ae.ZEC_testnet_t_AddressP2PKH},
	{"ZEC_testnet_t_AddressP2SH", &ae.ZEC_testnet_t_AddressP2SH},
	{"LTC_mainnetAddressP2PKH", &ae.LTC_mainnetAddressP2PKH},
	{"LTC_mainnetAddressP2SH", &ae.LTC_mainnetAddressP2SH},
	{"LTC_mainnetAddressP2SH2", &ae.LTC_mainnetAddressP2SH2},
	{"LTC_mainnetAddressBech32V0", &ae.LTC_mainnetAddressBech32V0},
	{"LTC_mainnetPrivateWIF", &ae.LTC_mainnetPrivateWIF},
	{"LTC_mainnetPrivateWIFCompressed", &ae.LTC_mainnetPrivateWIFCompressed},
	{"LTC_mainnetPublicBIP32", &ae.LTC_mainnetPublicBIP32},
	{"LTC_mainnetPrivateBIP32", &ae.LTC_mainnetPrivateBIP32},
	{"LTC_testnetAddressP2PKH", &ae.LTC_testnetAddressP2PKH},
	{"LTC_testnetAddressP2SH", &ae.LTC_testnetAddressP2SH},
	{"LTC_testnetAddressP2SH2", &ae.LTC_testnetAddressP2SH2},
	{"LTC_testnetAddressBech32V0", &ae.LTC_testnetAddressBech32V0},
	{"LTC_testnetPrivateWIF", &ae.LTC_testnetPrivateWIF},
	{"LTC_testnetPrivateWIFCompressed", &ae.LTC_testnetPrivateWIFCompressed},
	{"LTC_testnetPublicBIP32", &ae.LTC_testnetPublicBIP32},
	{"LTC_testnetPrivateBIP32", &ae.LTC_testnetPrivateBIP32},
	{"BCH_mainnetAddressLegacy", &ae.BCH_mainnetAddressLegacy},
	{"BCH_mainnetAddressCash", &ae.BCH_mainnetAddressCash},
	{"XTZ_mainnetAddress_tz1", &ae.XTZ_mainnetAddress_tz1},
	{"XTZ_mainnetAddress_tz2", &ae.XTZ_mainnetAddress_tz2},
	{"XTZ_mainnetAddress_tz3", &ae.XTZ_mainnetAddress_tz3},
	{"XTZ_mainnetPublic_edpk", &ae.XTZ_mainnetPublic_edpk},
	{"XTZ_mainnetPrivate_edsk", &ae.XTZ_mainnetPrivate_edsk},
	{"XTZ_mainnetPrivate_edsk2", &ae.XTZ_mainnetPrivate_edsk2},
	{"XTZ_mainnetPrivate_spsk", &ae.XTZ_mainnetPrivate_spsk},
	{"XTZ_mainnetPrivate_p2sk", &ae.XTZ_mainnetPrivate_p2sk},
	{"ETH_mainnetPublicAddress", &ae.ETH_mainnetPublicAddress},
	{"QTUM_mainnetAddressP2PKH", &ae.QTUM_mainnetAddressP2PKH},
	{"QTUM_mainnetAddressP2SH", &ae.QTUM_mainnetAddressP2SH},
	{"QTUM_mainnetPrivateWIF", &ae.QTUM_mainnetPrivateWIF},
	{"QTUM_mainnetPrivateWIFCompressed", &ae.QTUM_mainnetPrivateWIFCompressed},
	{"QTUM_mainnetPublicBIP32", &ae.QTUM_mainnetPublicBIP32},
	{"QTUM_mainnetPrivateBIP32", &ae.QTUM_mainnetPrivateBIP32},
	{"QTUM_testnetAddressP2PKH", &ae.QTUM_testnetAddressP2PKH},
	{"QTUM_testnetAddressP2SH", &ae.QTUM_testnetAddressP2SH},
	{"QTUM_testnetPrivateWIF", &ae.QTUM_testnetPrivateWIF},
	{"QTUM_testnetPrivateWIFCompressed", &ae.QTUM_testnetPrivateWIFCompressed},
	{"QTUM_testnetPublicBIP32", &ae.QTUM_testnetPublicBIP32},
	{"QTUM_testnetPrivateBIP32", &ae.QTUM_testnetPrivateBIP32},
	{"DCRD_mainnetAddressP2PKH", &ae.DCRD_mainnetAddressP2PKH},
	{"DCRD_mainnetAddressP2PK", &ae.DCRD_mainnetAddressP2PK},
	{"DCRD_mainnetAddressPKHEdwards", &ae.DCRD_mainnetAddressPKHEdwards},
	{"DCRD_mainnetAddressPKHSchnorr", &ae.DCRD_mainnetAddressPKHSchnorr},
	{"DCRD_mainnetAddressP2SH", &ae.DCRD_mainnetAddressP2SH},
	{"DCRD_mainnetAddressPrivate", &ae.DCRD_mainnetAddressPrivate},
	{"DCRD_testnetAddressP2PKH", &ae.DCRD_testnetAddressP2PKH},
	{"DCRD_testnetAddressP2PK", &ae.DCRD_testnetAddressP2PK},
	{"DCRD_testnetAddressPKHEdwards", &ae.DCRD_testnetAddressPKHEdwards},
	{"DCRD_testnetAddressP2PKHSchnorr", &ae.DCRD_testnetAddressP2PKHSchnorr},
	{"DCRD_testnetAddressP2SH", &ae.DCRD_testnetAddressP2SH},
	{"DCRD_testnetAddressPrivate", &ae.DCRD_testnetAddressPrivate},
	{"DCRD_simnetAddressP2PKH", &ae.DCRD_simnetAddressP2PKH},
	{"DCRD_simnetAddressP2PK", &ae.DCRD_simnetAddressP2PK},
	{"DCRD_simnetAddressPKHEdwards", &ae.DCRD_simnetAddressPKHEdwards},
	{"DCRD_simnetAddressPKHSchnorr", &ae.DCRD_simnetAddressPKHSchnorr},
	{"DCRD_simnetAddressP2SH", &ae.DCRD_simnetAddressP2SH},
	{"DCRD_simnetAddressPrivate", &ae.DCRD_simnetAddressPrivate},
	{"NAS_AccountAddress", &ae.NAS_AccountAddress},
	{"NAS_SmartContractAddress", &ae.NAS_SmartContractAddress},
	{"TRON_mainnetAddress", &ae.TRON_mainnetAddress},
	{"TRON_testnetAddress", &ae.TRON_testnetAddress},
	{"ICX_walletAddress", &ae.ICX_walletAddress},
	{"VSYS_mainnetAddress", &ae.VSYS_mainnetAddress},
	{"VSYS_testnetAddress", &ae.VSYS_testnetAddress},
	{"EOS_mainnetPublic", &ae.EOS_mainnetPublic},
	{"EOS_mainnetPrivateWIF", &ae.EOS_mainnetPrivateWIF},
	{"EOS_mainnetPrivateWIFCompressed", &ae.EOS_mainnetPrivateWIFCompressed},
	{"AE_mainnetAddress", &ae.AE_mainnetAddress},
	{"ATOM_mainnetAddress", &ae.ATOM_mainnetAddress},
	{"ATOM_testnetAddress", &ae.ATOM_testnetAddress},
	{"ELA_Address", &ae.ELA_Address},
	{"WICC_mainnetAddressP2PKH", &ae.WICC_mainnetAddressP2PKH},
	{"WICC_testnetAddressP2PKH", &ae.WICC_testnetAddressP2PKH},
	{"TV_mainnetAddress", &ae.TV_mainnetAddress},
	{"TV_testnetAddress", &ae.TV_testnetAddress},
	{"HC_mainnetPublicAddress", &ae.HC_mainnetPublicAddress},
	{"HC_mainnetAddressP2PK", &ae.HC_mainnetAddressP2PK},
	{"HC_mainnetAddressP2PKBliss", &ae.HC_mainnetAddressP2PKBliss},
	{"HC_mainnetAddressP2PKH", &ae.HC_mainnetAddressP2PKH},
	{"HC_mainnetAddressPKHEdwards", &ae.HC_mainnetAddressPKHEdwards},
	{"HC_mainnetAddressPKHSchnorr", &ae.HC_mainnetAddressPKHSchnorr},
	{"HC_mainnetAddressPKHBliss", &ae.HC_mainnetAddressPKHBliss},
	{"HC_mainnetAddressP2SH", &ae.HC_mainnetAddressP2SH},
	{"HC_mainnetAddressPrivate", &ae.HC_mainnetAddressPrivate},
	{"HC_testnetAddressP2PK", &ae.HC_testnetAddressP2PK},
	{"HC_testnetAddressP2PKBliss", &ae.HC_testnetAddressP2PKBliss},
	{"HC_testnetAddressP2PKH", &ae.HC_testnetAddressP2PKH},
	{"HC_testnetAddressPKHEdwards", &ae.HC_testnetAddressPKHEdwards},
	{"HC_testnetAddressP2PKHSchnorr", &ae.HC_testnetAddressP2PKHSchnorr},
	{"HC_testnetAddressPKHBliss", &ae.HC_testnetAddressPKHBliss},
	{"HC_testnetAddressP2SH", &ae.HC_testnetAddressP2SH},
	{"HC_testnetAddressPrivate", &ae.HC_testnetAddressPrivate},
	{"HC_simnetAddressP2PK", &ae.HC_simnetAddressP2PK},
	{"HC_simnetAddressP2PKBliss", &ae.HC_simnetAddressP2PKBliss},
	{"HC_simnetAddressP2PKH", &ae.HC_simnetAddressP2PKH},
	{"HC_simnetAddressPKHEdwards", &ae.HC_simnetAddressPKHEdwards},
	{"HC_simnetAddressPKHSchnorr", &ae.HC_simnetAddressPKHSchnorr},
	{"HC_simnetAddressPKHBliss", &ae.HC_simnetAddressPKHBliss},
	{"HC_simnetAddressP2SH", &ae.HC_simnetAddressP2SH},
	{"HC_simnetAddressPrivate", &ae.HC_simnetAddressPrivate},
	{"BNB_mainnetAddress", &ae.BNB_mainnetAddress},
	{"BSV_mainnetAddressP2PKH", &ae.BSV_mainnetAddressP2PKH},
	{"BSV_mainnetAddressP2SH", &ae.BSV_mainnetAddressP2SH},
	{"EVA_mainnetAddress", &ae.EVA_mainnetAddress},
	{"EVA_testnetAddress", &ae.EVA_testnetAddress},
	{"XCH_mainnetAddress", &ae.XCH_mainnetAddress},
}
