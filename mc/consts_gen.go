// Code generated by tools/mkdata.py; DO NOT EDIT.

package main

import hangul "github.com/suapapa/go_hangul"

var letterConsts = []struct {
	name string
	got  rune
	want rune
	uni  string
}{
	{"G", hangul.G, 0x3131, "HANGUL LETTER KIYEOK"},
	{"GG", hangul.GG, 0x3132, "HANGUL LETTER SSANGKIYEOK"},
	{"GS", hangul.GS, 0x3133, "HANGUL LETTER KIYEOK-SIOS"},
	{"N", hangul.N, 0x3134, "HANGUL LETTER NIEUN"},
	{"NJ", hangul.NJ, 0x3135, "HANGUL LETTER NIEUN-CIEUC"},
	{"NH", hangul.NH, 0x3136, "HANGUL LETTER NIEUN-HIEUH"},
	{"D", hangul.D, 0x3137, "HANGUL LETTER TIKEUT"},
	{"DD", hangul.DD, 0x3138, "HANGUL LETTER SSANGTIKEUT"},
	{"L", hangul.L, 0x3139, "HANGUL LETTER RIEUL"},
	{"LG", hangul.LG, 0x313A, "HANGUL LETTER RIEUL-KIYEOK"},
	{"LM", hangul.LM, 0x313B, "HANGUL LETTER RIEUL-MIEUM"},
	{"LB", hangul.LB, 0x313C, "HANGUL LETTER RIEUL-PIEUP"},
	{"LS", hangul.LS, 0x313D, "HANGUL LETTER RIEUL-SIOS"},
	{"LT", hangul.LT, 0x313E, "HANGUL LETTER RIEUL-THIEUTH"},
	{"LP", hangul.LP, 0x313F, "HANGUL LETTER RIEUL-PHIEUPH"},
	{"LH", hangul.LH, 0x3140, "HANGUL LETTER RIEUL-HIEUH"},
	{"M", hangul.M, 0x3141, "HANGUL LETTER MIEUM"},
	{"B", hangul.B, 0x3142, "HANGUL LETTER PIEUP"},
	{"BB", hangul.BB, 0x3143, "HANGUL LETTER SSANGPIEUP"},
	{"BS", hangul.BS, 0x3144, "HANGUL LETTER PIEUP-SIOS"},
	{"S", hangul.S, 0x3145, "HANGUL LETTER SIOS"},
	{"SS", hangul.SS, 0x3146, "HANGUL LETTER SSANGSIOS"},
	{"ZS", hangul.ZS, 0x3147, "HANGUL LETTER IEUNG"},
	{"J", hangul.J, 0x3148, "HANGUL LETTER CIEUC"},
	{"JJ", hangul.JJ, 0x3149, "HANGUL LETTER SSANGCIEUC"},
	{"C", hangul.C, 0x314A, "HANGUL LETTER CHIEUCH"},
	{"K", hangul.K, 0x314B, "HANGUL LETTER KHIEUKH"},
	{"T", hangul.T, 0x314C, "HANGUL LETTER THIEUTH"},
	{"P", hangul.P, 0x314D, "HANGUL LETTER PHIEUPH"},
	{"H", hangul.H, 0x314E, "HANGUL LETTER HIEUH"},
	{"A", hangul.A, 0x314F, "HANGUL LETTER A"},
	{"AE", hangul.AE, 0x3150, "HANGUL LETTER AE"},
	{"YA", hangul.YA, 0x3151, "HANGUL LETTER YA"},
	{"YAE", hangul.YAE, 0x3152, "HANGUL LETTER YAE"},
	{"EO", hangul.EO, 0x3153, "HANGUL LETTER EO"},
	{"E", hangul.E, 0x3154, "HANGUL LETTER E"},
	{"YEO", hangul.YEO, 0x3155, "HANGUL LETTER YEO"},
	{"YE", hangul.YE, 0x3156, "HANGUL LETTER YE"},
	{"O", hangul.O, 0x3157, "HANGUL LETTER O"},
	{"WA", hangul.WA, 0x3158, "HANGUL LETTER WA"},
	{"WAE", hangul.WAE, 0x3159, "HANGUL LETTER WAE"},
	{"OE", hangul.OE, 0x315A, "HANGUL LETTER OE"},
	{"YO", hangul.YO, 0x315B, "HANGUL LETTER YO"},
	{"U", hangul.U, 0x315C, "HANGUL LETTER U"},
	{"WEO", hangul.WEO, 0x315D, "HANGUL LETTER WEO"},
	{"WE", hangul.WE, 0x315E, "HANGUL LETTER WE"},
	{"WI", hangul.WI, 0x315F, "HANGUL LETTER WI"},
	{"YU", hangul.YU, 0x3160, "HANGUL LETTER YU"},
	{"EU", hangul.EU, 0x3161, "HANGUL LETTER EU"},
	{"YI", hangul.YI, 0x3162, "HANGUL LETTER YI"},
	{"I", hangul.I, 0x3163, "HANGUL LETTER I"},
	{"LeadG", hangul.LeadG, 0x1100, "HANGUL CHOSEONG KIYEOK"},
	{"LeadGG", hangul.LeadGG, 0x1101, "HANGUL CHOSEONG SSANGKIYEOK"},
	{"LeadN", hangul.LeadN, 0x1102, "HANGUL CHOSEONG NIEUN"},
	{"LeadD", hangul.LeadD, 0x1103, "HANGUL CHOSEONG TIKEUT"},
	{"LeadDD", hangul.LeadDD, 0x1104, "HANGUL CHOSEONG SSANGTIKEUT"},
	{"LeadR", hangul.LeadR, 0x1105, "HANGUL CHOSEONG RIEUL"},
	{"LeadM", hangul.LeadM, 0x1106, "HANGUL CHOSEONG MIEUM"},
	{"LeadB", hangul.LeadB, 0x1107, "HANGUL CHOSEONG PIEUP"},
	{"LeadBB", hangul.LeadBB, 0x1108, "HANGUL CHOSEONG SSANGPIEUP"},
	{"LeadS", hangul.LeadS, 0x1109, "HANGUL CHOSEONG SIOS"},
	{"LeadSS", hangul.LeadSS, 0x110A, "HANGUL CHOSEONG SSANGSIOS"},
	{"LeadZS", hangul.LeadZS, 0x110B, "HANGUL CHOSEONG IEUNG"},
	{"LeadJ", hangul.LeadJ, 0x110C, "HANGUL CHOSEONG CIEUC"},
	{"LeadJJ", hangul.LeadJJ, 0x110D, "HANGUL CHOSEONG SSANGCIEUC"},
	{"LeadC", hangul.LeadC, 0x110E, "HANGUL CHOSEONG CHIEUCH"},
	{"LeadK", hangul.LeadK, 0x110F, "HANGUL CHOSEONG KHIEUKH"},
	{"LeadT", hangul.LeadT, 0x1110, "HANGUL CHOSEONG THIEUTH"},
	{"LeadP", hangul.LeadP, 0x1111, "HANGUL CHOSEONG PHIEUPH"},
	{"LeadH", hangul.LeadH, 0x1112, "HANGUL CHOSEONG HIEUH"},
	{"MedialA", hangul.MedialA, 0x1161, "HANGUL JUNGSEONG A"},
	{"MedialAE", hangul.MedialAE, 0x1162, "HANGUL JUNGSEONG AE"},
	{"MedialYA", hangul.MedialYA, 0x1163, "HANGUL JUNGSEONG YA"},
	{"MedialYAE", hangul.MedialYAE, 0x1164, "HANGUL JUNGSEONG YAE"},
	{"MedialEO", hangul.MedialEO, 0x1165, "HANGUL JUNGSEONG EO"},
	{"MedialE", hangul.MedialE, 0x1166, "HANGUL JUNGSEONG E"},
	{"MedialYEO", hangul.MedialYEO, 0x1167, "HANGUL JUNGSEONG YEO"},
	{"MedialYE", hangul.MedialYE, 0x1168, "HANGUL JUNGSEONG YE"},
	{"MedialO", hangul.MedialO, 0x1169, "HANGUL JUNGSEONG O"},
	{"MedialWA", hangul.MedialWA, 0x116A, "HANGUL JUNGSEONG WA"},
	{"MedialWAE", hangul.MedialWAE, 0x116B, "HANGUL JUNGSEONG WAE"},
	{"MedialOE", hangul.MedialOE, 0x116C, "HANGUL JUNGSEONG OE"},
	{"MedialYO", hangul.MedialYO, 0x116D, "HANGUL JUNGSEONG YO"},
	{"MedialU", hangul.MedialU, 0x116E, "HANGUL JUNGSEONG U"},
	{"MedialWEO", hangul.MedialWEO, 0x116F, "HANGUL JUNGSEONG WEO"},
	{"MedialWE", hangul.MedialWE, 0x1170, "HANGUL JUNGSEONG WE"},
	{"MedialWI", hangul.MedialWI, 0x1171, "HANGUL JUNGSEONG WI"},
	{"MedialYU", hangul.MedialYU, 0x1172, "HANGUL JUNGSEONG YU"},
	{"MedialEU", hangul.MedialEU, 0x1173, "HANGUL JUNGSEONG EU"},
	{"MedialYI", hangul.MedialYI, 0x1174, "HANGUL JUNGSEONG YI"},
	{"MedialI", hangul.MedialI, 0x1175, "HANGUL JUNGSEONG I"},
	{"TailG", hangul.TailG, 0x11A8, "HANGUL JONGSEONG KIYEOK"},
	{"TailGG", hangul.TailGG, 0x11A9, "HANGUL JONGSEONG SSANGKIYEOK"},
	{"TailGS", hangul.TailGS, 0x11AA, "HANGUL JONGSEONG KIYEOK-SIOS"},
	{"TailN", hangul.TailN, 0x11AB, "HANGUL JONGSEONG NIEUN"},
	{"TailNJ", hangul.TailNJ, 0x11AC, "HANGUL JONGSEONG NIEUN-CIEUC"},
	{"TailNH", hangul.TailNH, 0x11AD, "HANGUL JONGSEONG NIEUN-HIEUH"},
	{"TailD", hangul.TailD, 0x11AE, "HANGUL JONGSEONG TIKEUT"},
	{"TailL", hangul.TailL, 0x11AF, "HANGUL JONGSEONG RIEUL"},
	{"TailLG", hangul.TailLG, 0x11B0, "HANGUL JONGSEONG RIEUL-KIYEOK"},
	{"TailLM", hangul.TailLM, 0x11B1, "HANGUL JONGSEONG RIEUL-MIEUM"},
	{"TailLB", hangul.TailLB, 0x11B2, "HANGUL JONGSEONG RIEUL-PIEUP"},
	{"TailLS", hangul.TailLS, 0x11B3, "HANGUL JONGSEONG RIEUL-SIOS"},
	{"TailLT", hangul.TailLT, 0x11B4, "HANGUL JONGSEONG RIEUL-THIEUTH"},
	{"TailLP", hangul.TailLP, 0x11B5, "HANGUL JONGSEONG RIEUL-PHIEUPH"},
	{"TailLH", hangul.TailLH, 0x11B6, "HANGUL JONGSEONG RIEUL-HIEUH"},
	{"TailM", hangul.TailM, 0x11B7, "HANGUL JONGSEONG MIEUM"},
	{"TailB", hangul.TailB, 0x11B8, "HANGUL JONGSEONG PIEUP"},
	{"TailBS", hangul.TailBS, 0x11B9, "HANGUL JONGSEONG PIEUP-SIOS"},
	{"TailS", hangul.TailS, 0x11BA, "HANGUL JONGSEONG SIOS"},
	{"TailSS", hangul.TailSS, 0x11BB, "HANGUL JONGSEONG SSANGSIOS"},
	{"TailNG", hangul.TailNG, 0x11BC, "HANGUL JONGSEONG IEUNG"},
	{"TailJ", hangul.TailJ, 0x11BD, "HANGUL JONGSEONG CIEUC"},
	{"TailC", hangul.TailC, 0x11BE, "HANGUL JONGSEONG CHIEUCH"},
	{"TailK", hangul.TailK, 0x11BF, "HANGUL JONGSEONG KHIEUKH"},
	{"TailT", hangul.TailT, 0x11C0, "HANGUL JONGSEONG THIEUTH"},
	{"TailP", hangul.TailP, 0x11C1, "HANGUL JONGSEONG PHIEUPH"},
	{"TailH", hangul.TailH, 0x11C2, "HANGUL JONGSEONG HIEUH"},
	{"NG", hangul.NG, 0x3147, "HANGUL LETTER IEUNG"},
}
