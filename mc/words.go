package main

// Texts that ordinary Korean treats as more than the sum of their characters:
// words with a customary reading, initial-sound rules, marks and annotations.

import (
	"fmt"
	"strings"
)

// hanjaWords are read in Korean otherwise than character by character, or are
// what a converter might keep a list of.
var hanjaWords = strings.Fields(`自轉車 人力車 停車場 自動車 汽車 電車 初八日 四月初八日 六月 十月 五六月 十方 十王 不動産 不當 不正 不足 不實 不在 不德 不知
菩提 菩提樹 道場 布施 般若 南無 阿彌陀佛 木瓜 牡丹 契丹 喇叭 忙中 吏讀 句讀 讀書 樂園 音樂 樂山樂水 龜裂 龜尾 降伏 降下 更新 更生 見本 謁見 金氏 金浦 金剛 黃金
茶禮 綠茶 糖尿 砂糖 洞察 洞里 復活 反復 否定 否塞 北韓 敗北 分泌 泌尿器 殺人 相殺 殺到 狀態 賞狀 索引 索漠 省略 反省 說明 遊說 率直 能率 確率 比率 百分率 合格率 失敗率 出席率
行列 系列 整列 分列 戰列 卑劣 優劣 龍山 女子 男女 老人 敬老 來日 未來 理由 道理 良心 改良 禮節 婚禮 六十 五六 論理 理論 樓閣 望樓 勞動 過勞 雷聲 地雷 羅列 新羅 柳氏 李氏 林氏 梁氏 陸軍 大陸 輪廻 年輪
年度 少年 一年 泥土 紐帶 匿名 隱匿 尿素 料金 材料 曆法 力說 歷史 聯合 蓮花 戀愛 冷房 寒冷 零下 令狀 命令 立法 獨立 臨時 君臨 隣接 交隣 燐酸 鱗片 拾萬 拾得 宿泊 星宿 食堂 簞食 惡寒 罪惡 憎惡 易學 貿易 容易 咽喉 嗚咽 刺戟 刺殺 水刺 著名 著述 切斷 一切 辰時 生辰 誕辰 參加 參拾 推敲 推進 則效 原則 沈氏 沈沒 拓本 開拓 便利 便所 暴露 暴力 幅員 皮幅 合同 陜川 行動 行廊 畫家 畫順 滑走 滑稽 皇帝 誼諠 大韓民國 民主共和國 漢字 韓國 中國 日本 美國 朝鮮 高麗 百濟 高句麗 伽倻 渤海
東問西答 一石二鳥 四面楚歌 溫故知新 十中八九 百八煩惱 八萬大藏經 三十六計 一二三四五六七八九十 億兆 千萬 壹貳參 零一二 甲子 乙丑 丙寅 丁卯 戊辰 己巳 庚午 辛未 壬申 癸酉 兩班 數量 度數 頻數 宅地 宅內 車輛 內人 盟誓 炭酸 許諾 受諾 承諾 寒暖 困難 論難 議論 大怒 喜怒哀樂 長壽 牧丹 菉豆 十月十日 五月五日 初八 石首魚 白沈 沈菜 山行 艱難 自轉車道路 停車場前 不知不覺 不動 不得 不同 不敗 不可 不來`)

// markTokens stand around and between ideographs with a meaning of their own.
var markTokens = []string{"々", "〆", "〇", "\u3006", "\u303b", "\u3005", "\ufe00", "\ufe0f", "\U000E0100", "\u200b", "\u200d", "\u2060", "\ufeff", "\u00ad", "\u3000", "\u00a0", "·", "・", "〈", "〉", "「", "」", "(", ")", "[", "]", "（", "）", ",", "。", "、", "-", "~", "/", ":", "\"", "'", "0", "1", "５", "%", "年", "月", "日", "第", "\u2f00", "\u2e80", "\u2ff0", "\u31c0", "\u3220", "\u3280", "\u302a", "\u0300", "가", "는", "ㄱ", "\u1100", "\u11a8", "A", "\t", "\r\n", "\u2028", "&#28450;", "<b>", "%E6", "\\u6f22", "\x1b", "\x00"}

// hanjaWordTexts runs Convert over words and marks.
func hanjaWordTexts(e *Eng) {
	words := hanjaWords
	if len(words) < 200 {
		panic("words")
	}
	ctx := []string{"", " ", "가", "은", "a", "1", "(", ")", "\n", "漢", "不", "第", ".", "\u200b"}
	e.Par("words", fmt.Sprintf("%d words with customary readings, initial-sound rules, numbers and names: in %d*%d contexts, doubled, with every mark of %d between their characters, and before every other word with 4 separators", len(words), len(ctx), len(ctx), len(markTokens)), len(words), func(w *Worker, i int) {
		var buf []byte
		var s string
		w.Desc(func() string { return fmt.Sprintf("Convert(%q)", s) })
		f := func(x string) { s = x; checkConvert(w, x, &buf) }
		a := words[i]
		for _, p := range ctx {
			for _, q := range ctx {
				f(p + a + q)
				f(p + a + a + q)
			}
		}
		rs := []rune(a)
		for _, m := range markTokens {
			for k := 0; k <= len(rs); k++ {
				f(string(rs[:k]) + m + string(rs[k:]))
			}
			f(a + m + string(refConvert(nil, a)) + m)
			f(string(refConvert(nil, a)) + m + a)
			f(string(refConvert(nil, a)) + "(" + a + ")" + m)
		}
		// parts and the reverse
		for k := 0; k < len(rs); k++ {
			for l := k + 1; l <= len(rs); l++ {
				f(string(rs[k:l]))
			}
		}
		for k, l := 0, len(rs)-1; k < l; k, l = k+1, l-1 {
			rs[k], rs[l] = rs[l], rs[k]
		}
		f(string(rs))
		for _, b := range words {
			for _, sep := range []string{"", " ", "의", "·"} {
				f(a + sep + b)
			}
		}
	})
	t := append(append([]string{}, markTokens...), "漢", "字", "不", "\u3400", "\ufa10", "六", "女")
	d := e.pick(3, 4)
	e.Par("marks", fmt.Sprintf("all texts of 2..%d of %d marks and ideographs", d, len(t)), len(t)*len(t), func(w *Worker, i int) {
		var buf []byte
		var s string
		w.Desc(func() string { return fmt.Sprintf("Convert(%q)", s) })
		var rec func(k int, x string)
		rec = func(k int, x string) {
			s = x
			checkConvert(w, x, &buf)
			if k == 0 {
				return
			}
			for _, m := range t {
				rec(k-1, x+m)
			}
		}
		rec(d-2, t[i%len(t)]+t[i/len(t)])
	})
}

// postEndings runs the postposition over words whose end has a meaning of its
// own: brackets, numbers, units, foreign words.
func postEndings(e *Eng) {
	ends := append(append([]string{}, markTokens...), "0", "1", "2", "3", "6", "7", "8", "9", "10", "100", "3.14", "kg", "km", "L", "M", "N", "R", "l", "m", "n", "r", "ng", "Seoul", "Paris", "http://a.kr", "a@b.c", "!", "?", "…", "~", "♥", "\U0001F44D\U0001F3FD", "\U0001F1F0\U0001F1F7", "ㅋㅋ", "ㅠㅠ", "ㅏ", "ㄹ", "\u11af", "\u1175", "\u1106\u116e\u11af", "ﾰ", "물", "불", "집", "나무", "\u6c34", "の", "ー", "\u0e01", "\u05d0", "\u0301", "\u20e3", "½", "Ⅲ", "①", "㉠", "㈀", "㎏", "％", "Ａ")
	lens := []string{"", "가", "각", "갈", "서울", "사과", "\"말", "(물", "『책", "漢", "a", "1"}
	e.Par("special endings", fmt.Sprintf("all words of a beginning of %d and one to three of %d endings (brackets, quotes, numbers, units, foreign words, marks, emoji, letters), %d particle pairs", len(lens), len(ends), 4), len(ends)*len(ends), func(w *Worker, i int) {
		var word string
		w.Desc(func() string { return fmt.Sprintf("word %q", word) })
		pp := [][2]string{{"으로", "로"}, {"이", "가"}, {"은", "는"}, {"아", "야"}}
		f := func(x string) {
			word = x
			last := checkLast(w, x)
			for _, q := range pp {
				checkPost(w, x, q[0], q[1], last)
			}
		}
		a, b := ends[i%len(ends)], ends[i/len(ends)]
		for _, l := range lens {
			if i < len(ends) {
				f(l + a)
			}
			f(l + b + a)
			for _, c := range ends {
				f(l + c + b + a)
			}
		}
	})
	// particles with an ending or a meaning of their own
	odd := []string{"으로", "로", "", "(으)로", "이/가", "이", "가", "ㄹ", "\xff", "\u11ab", "는데요 ", "으로\n", "A", "\x00", "이라도", "라도", "으로서", "로서", "으로써", "로써", "으로부터", "로부터", "으로는", "로는", "으로도", "로도", "으로의", "로의", "을로", "로\u0301", " 으로", "으로 ", "으", "로로", "\u110b\u1173로", "(로)", "란", "이란", "랑", "이랑", "과", "와", "든지", "이든지", "며", "이며", "여", "이여", "시여", "이시여"}
	words := []string{"", "가", "각", "갈", "갉", "서울", "a", "물", "달걀", "힣", "할", "ㄹ", "\u11af", "가\u11af", "가\u11ab", "\xff", "길로", "으로", "로", "漢", "1"}
	e.Par("odd particles", fmt.Sprintf("%d words with all %d*%d particle pairs, compounds of 로, empty and ill-formed ones", len(words), len(odd), len(odd)), len(words), func(w *Worker, i int) {
		w.Desc(func() string { return fmt.Sprintf("word %q", words[i]) })
		last := checkLast(w, words[i])
		for _, a := range odd {
			for _, b := range odd {
				checkPost(w, words[i], a, b, last)
			}
		}
	})
}
