// Tables from ISO 4217 and ISO 3166-1: code and number of minor units, country and its tender.
// X-macros: CURRENCY(code, minor units per unit), COUNTRY(code), JURISDICTION(country, currency)
#ifdef CURRENCY
CURRENCY(AED, 100) CURRENCY(AFN, 100) CURRENCY(ALL, 100) CURRENCY(AMD, 100) CURRENCY(ANG, 100) CURRENCY(AOA, 100) CURRENCY(ARS, 100) CURRENCY(AUD, 100)
CURRENCY(AWG, 100) CURRENCY(AZN, 100) CURRENCY(BAM, 100) CURRENCY(BBD, 100) CURRENCY(BDT, 100) CURRENCY(BGN, 100) CURRENCY(BHD, 1000) CURRENCY(BIF, 1)
CURRENCY(BMD, 100) CURRENCY(BND, 100) CURRENCY(BOB, 100) CURRENCY(BOV, 100) CURRENCY(BRL, 100) CURRENCY(BSD, 100) CURRENCY(BTN, 100) CURRENCY(BWP, 100)
CURRENCY(BYN, 100) CURRENCY(BZD, 100) CURRENCY(CAD, 100) CURRENCY(CDF, 100) CURRENCY(CHE, 100) CURRENCY(CHF, 100) CURRENCY(CHW, 100) CURRENCY(CLF, 10000)
CURRENCY(CLP, 1) CURRENCY(CNY, 100) CURRENCY(COP, 100) CURRENCY(COU, 100) CURRENCY(CRC, 100) CURRENCY(CUC, 100) CURRENCY(CUP, 100) CURRENCY(CVE, 100)
CURRENCY(CZK, 100) CURRENCY(DJF, 1) CURRENCY(DKK, 100) CURRENCY(DOP, 100) CURRENCY(DZD, 100) CURRENCY(EGP, 100) CURRENCY(ERN, 100) CURRENCY(ETB, 100)
CURRENCY(EUR, 100) CURRENCY(FJD, 100) CURRENCY(FKP, 100) CURRENCY(GBP, 100) CURRENCY(GEL, 100) CURRENCY(GHS, 100) CURRENCY(GIP, 100) CURRENCY(GMD, 100)
CURRENCY(GNF, 1) CURRENCY(GTQ, 100) CURRENCY(GYD, 100) CURRENCY(HKD, 100) CURRENCY(HNL, 100) CURRENCY(HRK, 100) CURRENCY(HTG, 100) CURRENCY(HUF, 100)
CURRENCY(IDR, 100) CURRENCY(ILS, 100) CURRENCY(INR, 100) CURRENCY(IQD, 1000) CURRENCY(IRR, 100) CURRENCY(ISK, 1) CURRENCY(JMD, 100) CURRENCY(JOD, 1000)
CURRENCY(JPY, 1) CURRENCY(KES, 100) CURRENCY(KGS, 100) CURRENCY(KHR, 100) CURRENCY(KMF, 1) CURRENCY(KPW, 100) CURRENCY(KRW, 1) CURRENCY(KWD, 1000)
CURRENCY(KYD, 100) CURRENCY(KZT, 100) CURRENCY(LAK, 100) CURRENCY(LBP, 100) CURRENCY(LKR, 100) CURRENCY(LRD, 100) CURRENCY(LSL, 100) CURRENCY(LYD, 1000)
CURRENCY(MAD, 100) CURRENCY(MDL, 100) CURRENCY(MGA, 100) CURRENCY(MKD, 100) CURRENCY(MMK, 100) CURRENCY(MNT, 100) CURRENCY(MOP, 100) CURRENCY(MRU, 100)
CURRENCY(MUR, 100) CURRENCY(MVR, 100) CURRENCY(MWK, 100) CURRENCY(MXN, 100) CURRENCY(MXV, 100) CURRENCY(MYR, 100) CURRENCY(MZN, 100) CURRENCY(NAD, 100)
CURRENCY(NGN, 100) CURRENCY(NIO, 100) CURRENCY(NOK, 100) CURRENCY(NPR, 100) CURRENCY(NZD, 100) CURRENCY(OMR, 1000) CURRENCY(PAB, 100) CURRENCY(PEN, 100)
CURRENCY(PGK, 100) CURRENCY(PHP, 100) CURRENCY(PKR, 100) CURRENCY(PLN, 100) CURRENCY(PYG, 1) CURRENCY(QAR, 100) CURRENCY(RON, 100) CURRENCY(RSD, 100)
CURRENCY(RUB, 100) CURRENCY(RWF, 1) CURRENCY(SAR, 100) CURRENCY(SBD, 100) CURRENCY(SCR, 100) CURRENCY(SDG, 100) CURRENCY(SEK, 100) CURRENCY(SGD, 100)
CURRENCY(SHP, 100) CURRENCY(SLL, 100) CURRENCY(SOS, 100) CURRENCY(SRD, 100) CURRENCY(SSP, 100) CURRENCY(STN, 100) CURRENCY(SVC, 100) CURRENCY(SYP, 100)
CURRENCY(SZL, 100) CURRENCY(THB, 100) CURRENCY(TJS, 100) CURRENCY(TMT, 100) CURRENCY(TND, 1000) CURRENCY(TOP, 100) CURRENCY(TRY, 100) CURRENCY(TTD, 100)
CURRENCY(TWD, 100) CURRENCY(TZS, 100) CURRENCY(UAH, 100) CURRENCY(UGX, 1) CURRENCY(USD, 100) CURRENCY(UYI, 1) CURRENCY(UYU, 100) CURRENCY(UZS, 100)
CURRENCY(VEF, 100) CURRENCY(VND, 1) CURRENCY(VUV, 1) CURRENCY(WST, 100) CURRENCY(XAF, 1) CURRENCY(XAG, 100) CURRENCY(XAU, 100) CURRENCY(XBA, 100)
CURRENCY(XBB, 100) CURRENCY(XBC, 100) CURRENCY(XBD, 100) CURRENCY(XCD, 100) CURRENCY(XDR, 100) CURRENCY(XOF, 1) CURRENCY(XPD, 100) CURRENCY(XPF, 1)
CURRENCY(XPT, 100) CURRENCY(XSU, 100) CURRENCY(XUA, 100) CURRENCY(YER, 100) CURRENCY(ZAR, 100) CURRENCY(ZMW, 100) CURRENCY(ZWL, 100)
#endif
#ifdef COUNTRY
COUNTRY(AD) COUNTRY(AE) COUNTRY(AF) COUNTRY(AG) COUNTRY(AI) COUNTRY(AL) COUNTRY(AM) COUNTRY(AO) COUNTRY(AQ) COUNTRY(AR) COUNTRY(AS) COUNTRY(AT)
COUNTRY(AU) COUNTRY(AW) COUNTRY(AX) COUNTRY(AZ) COUNTRY(BA) COUNTRY(BB) COUNTRY(BD) COUNTRY(BE) COUNTRY(BF) COUNTRY(BG) COUNTRY(BH) COUNTRY(BI)
COUNTRY(BJ) COUNTRY(BL) COUNTRY(BM) COUNTRY(BN) COUNTRY(BO) COUNTRY(BQ) COUNTRY(BR) COUNTRY(BS) COUNTRY(BT) COUNTRY(BV) COUNTRY(BW) COUNTRY(BY)
COUNTRY(BZ) COUNTRY(CA) COUNTRY(CC) COUNTRY(CD) COUNTRY(CF) COUNTRY(CG) COUNTRY(CH) COUNTRY(CI) COUNTRY(CK) COUNTRY(CL) COUNTRY(CM) COUNTRY(CN)
COUNTRY(CO) COUNTRY(CR) COUNTRY(CU) COUNTRY(CV) COUNTRY(CW) COUNTRY(CX) COUNTRY(CY) COUNTRY(CZ) COUNTRY(DE) COUNTRY(DJ) COUNTRY(DK) COUNTRY(DM)
COUNTRY(DO) COUNTRY(DZ) COUNTRY(EC) COUNTRY(EE) COUNTRY(EG) COUNTRY(EH) COUNTRY(ER) COUNTRY(ES) COUNTRY(ET) COUNTRY(FI) COUNTRY(FJ) COUNTRY(FK)
COUNTRY(FM) COUNTRY(FO) COUNTRY(FR) COUNTRY(GA) COUNTRY(GB) COUNTRY(GD) COUNTRY(GE) COUNTRY(GF) COUNTRY(GG) COUNTRY(GH) COUNTRY(GI) COUNTRY(GL)
COUNTRY(GM) COUNTRY(GN) COUNTRY(GP) COUNTRY(GQ) COUNTRY(GR) COUNTRY(GS) COUNTRY(GT) COUNTRY(GU) COUNTRY(GW) COUNTRY(GY) COUNTRY(HK) COUNTRY(HM)
COUNTRY(HN) COUNTRY(HR) COUNTRY(HT) COUNTRY(HU) COUNTRY(ID) COUNTRY(IE) COUNTRY(IL) COUNTRY(IM) COUNTRY(IO) COUNTRY(IQ) COUNTRY(IR) COUNTRY(IS)
COUNTRY(IT) COUNTRY(JE) COUNTRY(JM) COUNTRY(JO) COUNTRY(JP) COUNTRY(KE) COUNTRY(KG) COUNTRY(KH) COUNTRY(KI) COUNTRY(KM) COUNTRY(KN) COUNTRY(KP)
COUNTRY(KR) COUNTRY(KW) COUNTRY(KY) COUNTRY(KZ) COUNTRY(LA) COUNTRY(LB) COUNTRY(LC) COUNTRY(LI) COUNTRY(LK) COUNTRY(LR) COUNTRY(LS) COUNTRY(LT)
COUNTRY(LU) COUNTRY(LV) COUNTRY(LY) COUNTRY(MA) COUNTRY(MC) COUNTRY(MD) COUNTRY(ME) COUNTRY(MF) COUNTRY(MG) COUNTRY(MH) COUNTRY(MK) COUNTRY(ML)
COUNTRY(MM) COUNTRY(MN) COUNTRY(MO) COUNTRY(MP) COUNTRY(MQ) COUNTRY(MR) COUNTRY(MS) COUNTRY(MT) COUNTRY(MU) COUNTRY(MV) COUNTRY(MW) COUNTRY(MX)
COUNTRY(MY) COUNTRY(MZ) COUNTRY(NA) COUNTRY(NC) COUNTRY(NE) COUNTRY(NF) COUNTRY(NG) COUNTRY(NI) COUNTRY(NL) COUNTRY(NO) COUNTRY(NP) COUNTRY(NR)
COUNTRY(NU) COUNTRY(NZ) COUNTRY(OM) COUNTRY(PA) COUNTRY(PE) COUNTRY(PF) COUNTRY(PG) COUNTRY(PH) COUNTRY(PK) COUNTRY(PL) COUNTRY(PM) COUNTRY(PN)
COUNTRY(PR) COUNTRY(PS) COUNTRY(PT) COUNTRY(PW) COUNTRY(PY) COUNTRY(QA) COUNTRY(RE) COUNTRY(RO) COUNTRY(RS) COUNTRY(RU) COUNTRY(RW) COUNTRY(SA)
COUNTRY(SB) COUNTRY(SC) COUNTRY(SD) COUNTRY(SE) COUNTRY(SG) COUNTRY(SH) COUNTRY(SI) COUNTRY(SJ) COUNTRY(SK) COUNTRY(SL) COUNTRY(SM) COUNTRY(SN)
COUNTRY(SO) COUNTRY(SR) COUNTRY(SS) COUNTRY(ST) COUNTRY(SV) COUNTRY(SX) COUNTRY(SY) COUNTRY(SZ) COUNTRY(TC) COUNTRY(TD) COUNTRY(TF) COUNTRY(TG)
COUNTRY(TH) COUNTRY(TJ) COUNTRY(TK) COUNTRY(TL) COUNTRY(TM) COUNTRY(TN) COUNTRY(TO) COUNTRY(TR) COUNTRY(TT) COUNTRY(TV) COUNTRY(TW) COUNTRY(TZ)
COUNTRY(UA) COUNTRY(UG) COUNTRY(UM) COUNTRY(US) COUNTRY(UY) COUNTRY(UZ) COUNTRY(VA) COUNTRY(VC) COUNTRY(VE) COUNTRY(VG) COUNTRY(VI) COUNTRY(VN)
COUNTRY(VU) COUNTRY(WF) COUNTRY(WS) COUNTRY(YE) COUNTRY(YT) COUNTRY(ZA) COUNTRY(ZM) COUNTRY(ZW)
#endif
#ifdef JURISDICTION
JURISDICTION(AF, AFN) JURISDICTION(AL, ALL) JURISDICTION(DZ, DZD) JURISDICTION(AS, USD) JURISDICTION(AD, EUR) JURISDICTION(AO, AOA)
JURISDICTION(AI, XCD) JURISDICTION(AG, XCD) JURISDICTION(AR, ARS) JURISDICTION(AM, AMD) JURISDICTION(AW, AWG) JURISDICTION(AU, AUD)
JURISDICTION(AT, EUR) JURISDICTION(AZ, AZN) JURISDICTION(BS, BSD) JURISDICTION(BH, BHD) JURISDICTION(BD, BDT) JURISDICTION(BB, BBD)
JURISDICTION(BY, BYN) JURISDICTION(BE, EUR) JURISDICTION(BZ, BZD) JURISDICTION(BJ, XOF) JURISDICTION(BM, BMD) JURISDICTION(BT, BTN)
JURISDICTION(BO, BOB) JURISDICTION(BQ, USD) JURISDICTION(BA, BAM) JURISDICTION(BW, BWP) JURISDICTION(BV, NOK) JURISDICTION(BR, BRL)
JURISDICTION(IO, USD) JURISDICTION(VG, USD) JURISDICTION(BN, BND) JURISDICTION(BG, BGN) JURISDICTION(BF, XOF) JURISDICTION(BI, BIF)
JURISDICTION(CV, CVE) JURISDICTION(KH, KHR) JURISDICTION(CM, XAF) JURISDICTION(CA, CAD) JURISDICTION(KY, KYD) JURISDICTION(CF, XAF)
JURISDICTION(TD, XAF) JURISDICTION(CL, CLP) JURISDICTION(CN, CNY) JURISDICTION(HK, HKD) JURISDICTION(MO, MOP) JURISDICTION(CX, AUD)
JURISDICTION(CC, AUD) JURISDICTION(CO, COP) JURISDICTION(KM, KMF) JURISDICTION(CG, XAF) JURISDICTION(CK, NZD) JURISDICTION(CR, CRC)
JURISDICTION(HR, HRK) JURISDICTION(CU, CUP) JURISDICTION(CW, ANG) JURISDICTION(CY, EUR) JURISDICTION(CZ, CZK) JURISDICTION(CI, XOF)
JURISDICTION(KP, KPW) JURISDICTION(CD, CDF) JURISDICTION(DK, DKK) JURISDICTION(DJ, DJF) JURISDICTION(DM, XCD) JURISDICTION(DO, DOP)
JURISDICTION(EC, USD) JURISDICTION(EG, EGP) JURISDICTION(SV, SVC) JURISDICTION(GQ, XAF) JURISDICTION(ER, ERN) JURISDICTION(EE, EUR)
JURISDICTION(ET, ETB) JURISDICTION(FO, DKK) JURISDICTION(FJ, FJD) JURISDICTION(FI, EUR) JURISDICTION(FR, EUR) JURISDICTION(GF, EUR)
JURISDICTION(PF, XPF) JURISDICTION(TF, EUR) JURISDICTION(GA, XAF) JURISDICTION(GM, GMD) JURISDICTION(GE, GEL) JURISDICTION(DE, EUR)
JURISDICTION(GH, GHS) JURISDICTION(GI, GIP) JURISDICTION(GR, EUR) JURISDICTION(GL, DKK) JURISDICTION(GD, XCD) JURISDICTION(GP, EUR)
JURISDICTION(GU, USD) JURISDICTION(GT, GTQ) JURISDICTION(GG, GBP) JURISDICTION(GN, GNF) JURISDICTION(GW, XOF) JURISDICTION(GY, GYD)
JURISDICTION(HT, HTG) JURISDICTION(HM, AUD) JURISDICTION(VA, EUR) JURISDICTION(HN, HNL) JURISDICTION(HU, HUF) JURISDICTION(IS, ISK)
JURISDICTION(ID, IDR) JURISDICTION(IR, IRR) JURISDICTION(IQ, IQD) JURISDICTION(IE, EUR) JURISDICTION(IM, GBP) JURISDICTION(IL, ILS)
JURISDICTION(IT, EUR) JURISDICTION(JM, JMD) JURISDICTION(JP, JPY) JURISDICTION(JE, GBP) JURISDICTION(JO, JOD) JURISDICTION(KZ, KZT)
JURISDICTION(KE, KES) JURISDICTION(KI, AUD) JURISDICTION(KW, KWD) JURISDICTION(KG, KGS) JURISDICTION(LA, LAK) JURISDICTION(LV, EUR)
JURISDICTION(LB, LBP) JURISDICTION(LS, LSL) JURISDICTION(LR, LRD) JURISDICTION(LY, LYD) JURISDICTION(LI, CHF) JURISDICTION(LT, EUR)
JURISDICTION(LU, EUR) JURISDICTION(MG, MGA) JURISDICTION(MW, MWK) JURISDICTION(MY, MYR) JURISDICTION(MV, MVR) JURISDICTION(ML, XOF)
JURISDICTION(MT, EUR) JURISDICTION(MH, USD) JURISDICTION(MQ, EUR) JURISDICTION(MR, MRU) JURISDICTION(MU, MUR) JURISDICTION(YT, EUR)
JURISDICTION(MX, MXN) JURISDICTION(FM, USD) JURISDICTION(MC, EUR) JURISDICTION(MN, MNT) JURISDICTION(ME, EUR) JURISDICTION(MS, XCD)
JURISDICTION(MA, MAD) JURISDICTION(MZ, MZN) JURISDICTION(MM, MMK) JURISDICTION(NA, NAD) JURISDICTION(NR, AUD) JURISDICTION(NP, NPR)
JURISDICTION(NL, EUR) JURISDICTION(NC, XPF) JURISDICTION(NZ, NZD) JURISDICTION(NI, NIO) JURISDICTION(NE, XOF) JURISDICTION(NG, NGN)
JURISDICTION(NU, NZD) JURISDICTION(NF, AUD) JURISDICTION(MP, USD) JURISDICTION(NO, NOK) JURISDICTION(OM, OMR) JURISDICTION(PK, PKR)
JURISDICTION(PW, USD) JURISDICTION(PA, PAB) JURISDICTION(PG, PGK) JURISDICTION(PY, PYG) JURISDICTION(PE, PEN) JURISDICTION(PH, PHP)
JURISDICTION(PN, NZD) JURISDICTION(PL, PLN) JURISDICTION(PT, EUR) JURISDICTION(PR, USD) JURISDICTION(QA, QAR) JURISDICTION(KR, KRW)
JURISDICTION(MD, MDL) JURISDICTION(RO, RON) JURISDICTION(RU, RUB) JURISDICTION(RW, RWF) JURISDICTION(RE, EUR) JURISDICTION(BL, EUR)
JURISDICTION(SH, SHP) JURISDICTION(KN, XCD) JURISDICTION(LC, XCD) JURISDICTION(MF, EUR) JURISDICTION(PM, EUR) JURISDICTION(VC, XCD)
JURISDICTION(WS, WST) JURISDICTION(SM, EUR) JURISDICTION(ST, STN) JURISDICTION(SA, SAR) JURISDICTION(SN, XOF) JURISDICTION(RS, RSD)
JURISDICTION(SC, SCR) JURISDICTION(SL, SLL) JURISDICTION(SG, SGD) JURISDICTION(SX, ANG) JURISDICTION(SK, EUR) JURISDICTION(SI, EUR)
JURISDICTION(SB, SBD) JURISDICTION(SO, SOS) JURISDICTION(ZA, ZAR) JURISDICTION(SS, SSP) JURISDICTION(ES, EUR) JURISDICTION(LK, LKR)
JURISDICTION(SD, SDG) JURISDICTION(SR, SRD) JURISDICTION(SJ, NOK) JURISDICTION(SZ, SZL) JURISDICTION(SE, SEK) JURISDICTION(CH, CHF)
JURISDICTION(SY, SYP) JURISDICTION(TJ, TJS) JURISDICTION(TH, THB) JURISDICTION(MK, MKD) JURISDICTION(TL, USD) JURISDICTION(TG, XOF)
JURISDICTION(TK, NZD) JURISDICTION(TO, TOP) JURISDICTION(TT, TTD) JURISDICTION(TN, TND) JURISDICTION(TR, TRY) JURISDICTION(TM, TMT)
JURISDICTION(TC, USD) JURISDICTION(TV, AUD) JURISDICTION(UG, UGX) JURISDICTION(UA, UAH) JURISDICTION(AE, AED) JURISDICTION(GB, GBP)
JURISDICTION(TZ, TZS) JURISDICTION(UM, USD) JURISDICTION(VI, USD) JURISDICTION(US, USD) JURISDICTION(UY, UYU) JURISDICTION(UZ, UZS)
JURISDICTION(VU, VUV) JURISDICTION(VE, VEF) JURISDICTION(VN, VND) JURISDICTION(WF, XPF) JURISDICTION(EH, MAD) JURISDICTION(YE, YER)
JURISDICTION(ZM, ZMW) JURISDICTION(ZW, ZWL) JURISDICTION(AX, EUR)
#endif
