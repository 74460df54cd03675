package main

// checks lists the explorations that decide each property, cheapest first.
var checks = map[string][]spec{
	"C01": {
		{h: "ParseTotal", p: "tmpl=39,opts=1"},
		{h: "ParseTotal", p: "tmpl=44"},
		{h: "ParseTotal", p: "tmpl=41,opts=1", tier: "t", secs: 60},
		{h: "ParseTotal", p: "tmpl=40,opts=1", tier: "t", secs: 60},
		{h: "ParseTotal", p: "n=1"},
		{h: "ParseTotal", p: "n=2,nest=24"},
		{h: "ParseTotal", p: "n=2,alpha=0,wide=20"},
		{h: "ParseTotal", p: "tmpl=29,opts=1"},
		{h: "ParseTotal", p: "tmpl=28"},
		{h: "ParseTotal", p: "n=2"},
		{h: "ParseTotal", p: "n=3,opts=1", reaches: "tree,error"},
		{h: "ParseTotal", p: "tmpl=1,opts=1"},
		{h: "ParseTotal", p: "tmpl=2"},
		{h: "ParseTotal", p: "tmpl=4,opts=0"},
		{h: "ParseTotal", p: "n=2,deep=12,opts=1"},
		{h: "ParseTotal", p: "n=2,pad=4096,kind=-1,opts=1"},
		{h: "ParseTotal", p: "n=7,alpha=2,opts=7"},
		{h: "ParseTotal", p: "n=4,opts=1", secs: 30},
		{h: "ParseTotal", p: "n=5,opts=0", tier: "t", secs: 200},
		{h: "ParseTotal", p: "n=8,alpha=3,opts=1", tier: "t", secs: 200},
		{h: "ParseTotal", p: "n=8,alpha=4,opts=1", tier: "t", secs: 200},
	},
	"C02": {
		{h: "ParseMirror", p: "tmpl=39"},
		{h: "ParseMirror", p: "tmpl=44"},
		{h: "ParseMirror", p: "tmpl=41", tier: "t", secs: 120},
		{h: "ParseMirror", p: "tmpl=40", tier: "t", secs: 60},
		{h: "ParseMirror", p: "n=1"},
		{h: "ParseMirror", p: "n=2,nest=24"},
		{h: "ParseMirror", p: "n=2,alpha=0,wide=20"},
		{h: "ParseMirror", p: "tmpl=29"},
		{h: "ParseMirror", p: "tmpl=28"},
		{h: "ParseMirror", p: "n=1,pad=65600", secs: 20},
		{h: "ParseMirror", p: "tmpl=19", secs: 20},
		{h: "ParseMirror", p: "n=2"},
		{h: "ParseMirror", p: "n=3", reaches: "tree,error"},
		{h: "ParseMirror", p: "tmpl=0"},
		{h: "ParseMirror", p: "tmpl=1"},
		{h: "ParseMirror", p: "tmpl=2"},
		{h: "ParseMirror", p: "tmpl=3"},
		{h: "ParseMirror", p: "tmpl=4"},
		{h: "ParseMirror", p: "n=5,alpha=5"},
		{h: "ParseMirror", p: "n=6,alpha=2"},
		{h: "ParseMirror", p: "n=6,alpha=8"},
		{h: "ParseMirror", p: "n=1,pad=4096,kind=-1"},
		{h: "ParseMirror", p: "n=4", secs: 40},
		{h: "ParseMirror", p: "n=5,alpha=0", tier: "t", secs: 200},
		{h: "ParseMirror", p: "n=6,alpha=3", tier: "t", secs: 200},
		{h: "ParseMirror", p: "n=6,alpha=4", tier: "t", secs: 150},
		{h: "ParseMirror", p: "n=6,alpha=6", tier: "t", secs: 150},
	},
	"C03": {
		{h: "ParsePositions", p: "tmpl=39"},
		{h: "ParsePositions", p: "tmpl=44"},
		{h: "ParsePositions", p: "tmpl=42"},
		{h: "ParsePositions", p: "tmpl=41", tier: "t", secs: 120},
		{h: "ParsePositions", p: "tmpl=40", tier: "t", secs: 60},
		{h: "ParsePositions", p: "n=2"},
		{h: "ParsePositions", p: "n=2,nest=24"},
		{h: "ParsePositions", p: "n=2,alpha=0,wide=20"},
		{h: "ParsePositions", p: "tmpl=29"},
		{h: "ParsePositions", p: "tmpl=28"},
		{h: "ParsePositions", p: "tmpl=19", secs: 20},
		{h: "ParsePositions", p: "n=3", reaches: "tree,error"},
		{h: "ParsePositions", p: "tmpl=0"},
		{h: "ParsePositions", p: "tmpl=1"},
		{h: "ParsePositions", p: "tmpl=2"},
		{h: "ParsePositions", p: "tmpl=3"},
		{h: "ParsePositions", p: "tmpl=4"},
		{h: "ParsePositions", p: "n=6,alpha=2"},
		{h: "ParsePositions", p: "n=1,pad=4096,kind=-1"},
		{h: "ParsePositions", p: "n=5,alpha=4"},
		{h: "ParsePositions", p: "n=4", secs: 30},
		{h: "ParsePositions", p: "n=5,alpha=0", tier: "t", secs: 200},
		{h: "ParsePositions", p: "n=6,alpha=3", tier: "t", secs: 200},
		{h: "ParsePositions", p: "n=7,alpha=7", tier: "t", secs: 200},
	},
	"C04": {
		{h: "ParseOptions", p: "pieces=2"},
		{h: "ParseOptions", p: "tmpl=39", tier: "t", secs: 120},
		{h: "ParseOptions", p: "n=1"},
		{h: "ParseOptions", p: "n=1,pad=4096,kind=-1,opts=5"},
		{h: "ParseOptions", p: "n=1,pad=65600,kind=-1,opts=5", tier: "t", secs: 60},
		{h: "ParseOptions", p: "n=2,nest=24,opts=5"},
		{h: "ParseOptions", p: "n=1,wide=20,opts=6"},
		{h: "ParseOptions", p: "tmpl=29,opts=1"},
		{h: "ParseOptions", p: "tmpl=28,opts=1"},
		{h: "ParseOptions", p: "tmpl=19,opts=6"},
		{h: "ParseOptions", p: "tmpl=19,opts=1"},
		{h: "ParseOptions", p: "n=2"},
		{h: "ParseOptions", p: "tmpl=0"},
		{h: "ParseOptions", p: "tmpl=2", secs: 30},
		{h: "ParseOptions", p: "tmpl=3"},
		{h: "ParseOptions", p: "n=5,alpha=2", reaches: "tree,error"},
		{h: "ParseOptions", p: "n=3", secs: 30},
		{h: "ParseOptions", p: "n=4,alpha=3", tier: "t", secs: 200},
		{h: "ParseOptions", p: "n=4,opts=0", tier: "t", secs: 100},
		{h: "ParseOptions", p: "n=4,opts=7", tier: "t", secs: 100},
		{h: "ParseOptions", p: "tmpl=1", tier: "t", secs: 200},
	},
	"C05": {
		{h: "ParseLinks", p: "tmpl=39"},
		{h: "ParseLinks", p: "tmpl=41,opts=6", tier: "t", secs: 100},
		{h: "ParseLinks", p: "n=2,set=1,opts=0"},
		{h: "ParseLinks", p: "n=2,nest=24"},
		{h: "ParseLinks", p: "n=2,alpha=0,wide=20"},
		{h: "ParseLinks", p: "tmpl=19", secs: 20},
		{h: "ParseLinks", p: "tmpl=3,set=1", reaches: "linked,set"},
		{h: "ParseLinks", p: "tmpl=3,set=1,opts=6"},
		{h: "ParseLinks", p: "tmpl=2,opts=0"},
		{h: "ParseLinks", p: "tmpl=2,opts=7"},
		{h: "ParseLinks", p: "n=5,alpha=1,set=1"},
		{h: "ParseLinks", p: "n=4,alpha=0,set=1", secs: 20},
		{h: "ParseLinks", p: "n=5,alpha=0,set=1", tier: "t", secs: 200},
		{h: "ParseLinks", p: "n=7,alpha=1,set=1", tier: "t", secs: 200},
	},
	"C06": {
		{h: "ParseReader", p: "n=1,splits=3"},
		{h: "ParseReader", p: "tmpl=28,splits=1", secs: 15},
		{h: "ParseReader", p: "n=2,splits=2", reaches: "tree,error,failure"},
		{h: "ParseReader", p: "n=4,alpha=2,splits=1"},
		{h: "ParseFile", p: "n=1,faults=2", reaches: "tree,error,failure"},
		{h: "ParseFile", p: "tmpl=3,faults=1"},
		{h: "ParseFile", p: "n=2,faults=1"},
		{h: "ParseReader", p: "tmpl=3,splits=1"},
		{h: "ParseReader", p: "n=2,alpha=2,pad=4095,splits=0,fail=2", secs: 12},
		{h: "ParseReader", p: "n=3,splits=0", secs: 20},
		{h: "ParseReader", p: "n=3,alpha=0,splits=1", secs: 20},
		{h: "ParseReader", p: "n=1,pad=4096,splits=1,fail=2", tier: "t", secs: 100},
		{h: "ParseReader", p: "n=4,alpha=2,splits=2", tier: "t", secs: 200},
		{h: "ParseReader", p: "n=3,splits=2", tier: "t", secs: 200},
		{h: "ParseReader", p: "n=4,alpha=0,splits=1", tier: "t", secs: 200},
		{h: "ParseReader", p: "tmpl=4,splits=1", tier: "t", secs: 200},
	},
	"C07": {
		{h: "ParseLeak", p: "n=2"},
		{h: "ParseTogether", p: "n=2"},
		{h: "ParseFile", p: "n=1,faults=2", reaches: "tree,error,failure"},
		{h: "ParseFile", p: "tmpl=3,faults=1"},
		{h: "ParseTogether", p: "tmpl=3", reaches: "tree"},
		{h: "ParseTogether", p: "n=1,two=1"},
		{h: "ParseTogether", p: "n=3,alpha=0,two=1", tier: "t", secs: 100},
		{h: "ParseLeak", p: "n=2,reader=2"},
		{h: "ParseLeak", p: "tmpl=3,reader=2"},
		{h: "ParseLeak", p: "n=4,alpha=0,reader=2", tier: "t", secs: 100},
		{h: "ParseLeak", p: "n=3", reaches: "tree,error"},
		{h: "ParseLeak", p: "n=3,reader=1"},
		{h: "ParseLeak", p: "tmpl=1"},
		{h: "ParseLeak", p: "tmpl=2,reader=1"},
		{h: "ParseLeak", p: "tmpl=3,reader=1"},
		{h: "ParseLeak", p: "n=6,alpha=2"},
		{h: "ParseLeak", p: "n=4", secs: 30},
		{h: "ParseLeak", p: "n=5,alpha=0", tier: "t", secs: 200},
		{h: "ParseLeak", p: "n=4,reader=1", tier: "t", secs: 200},
	},
	"C08": {
		{h: "FmtCode", p: "tmpl=39,strict=1"},
		{h: "FmtCode", p: "tmpl=43,strict=1"},
		{h: "FmtCode", p: "tmpl=40,strict=1", tier: "t", secs: 60},
		{h: "FmtCode", p: "tmpl=41,strict=1", tier: "t", secs: 60},
		{h: "FmtCode", p: "tmpl=42,strict=1"},
		{h: "FmtCode", p: "tmpl=44,strict=1"},
		{h: "FmtCode", p: "tmpl=46,strict=1"},
		{h: "FmtCode", p: "tmpl=45,strict=1"},
		{h: "FmtCode", p: "n=3,alpha=0,strict=1"},
		{h: "FmtCode", p: "n=1,pad=4096,kind=-1,strict=1"},
		{h: "FmtCode", p: "n=1,pad=65600,kind=-1,strict=1", tier: "t", secs: 60},
		{h: "FmtCode", p: "tmpl=37,strict=1"},
		{h: "FmtCode", p: "n=2,nest=24,strict=1"},
		{h: "FmtCode", p: "n=2,alpha=0,wide=20,strict=1"},
		{h: "FmtCode", p: "tmpl=29,strict=1"},
		{h: "FmtCode", p: "tmpl=30,strict=1"},
		{h: "FmtCode", p: "tmpl=31,strict=1"},
		{h: "FmtCode", p: "tmpl=32,strict=1"},
		{h: "FmtCode", p: "tmpl=28,strict=1"},
		{h: "FmtCode", p: "n=1,pad=65600,strict=1", tier: "t", secs: 30},
		{h: "FmtCode", p: "tmpl=22,strict=1"},
		{h: "FmtCode", p: "tmpl=21,strict=1"},
		{h: "FmtCode", p: "n=5,alpha=1,strict=1"},
		{h: "FmtCode", p: "tmpl=19,strict=1"},
		{h: "FmtCode", p: "tmpl=14,strict=1"},
		{h: "FmtCode", p: "tmpl=9,strict=1"},
		{h: "FmtCode", p: "tmpl=10,strict=1"},
		{h: "FmtCode", p: "tmpl=5,strict=1"},
		{h: "FmtCode", p: "tmpl=6,strict=1", secs: 25},
		{h: "FmtCode", p: "tmpl=7,strict=1", secs: 25},
		{h: "FmtCode", p: "tmpl=8,strict=1", secs: 25, reaches: "docstring"},
		{h: "FmtCode", p: "tmpl=16,strict=1", secs: 20},
		{h: "FmtCode", p: "tmpl=13,strict=1"},
		{h: "FmtCode", p: "n=6,alpha=2,strict=1"},
		{h: "FmtCode", p: "n=4,alpha=0,strict=1", secs: 20},
		{h: "FmtCode", p: "n=2,strict=1", tier: "t", secs: 60},
		{h: "FmtCode", p: "n=3,strict=1", tier: "t", secs: 150},
		{h: "FmtCode", p: "tmpl=11,strict=1", tier: "t", secs: 60},
		{h: "FmtCode", p: "tmpl=12,strict=1", tier: "t", secs: 60},
		{h: "FmtCode", p: "tmpl=15,strict=1", tier: "t", secs: 20},
		{h: "FmtCode", p: "tmpl=17,strict=1", tier: "t", secs: 30},
		{h: "FmtCode", p: "tmpl=18,strict=1", tier: "t", secs: 30},
		{h: "FmtCode", p: "n=5,alpha=0,strict=1", tier: "t", secs: 120},
		{h: "FmtCode", p: "n=6,alpha=1,strict=1", tier: "t", secs: 60},
		{h: "FmtCode", p: "n=6,alpha=3,strict=1", tier: "t", secs: 150},
		{h: "FmtCode", p: "n=6,alpha=4,strict=1", tier: "t", secs: 150},
		{h: "FmtCode", p: "n=6,alpha=5,strict=1", tier: "t", secs: 100},
		{h: "FmtCode", p: "n=6,alpha=7,strict=1", tier: "t", secs: 100},
		{h: "FmtCode", p: "n=7,alpha=8,strict=1", tier: "t", secs: 100},
		{h: "FmtCode", p: "n=7,alpha=2,strict=1", tier: "t", secs: 60},
		{h: "FmtCode", p: "tmpl=5,cfg=5,strict=1", tier: "t", secs: 30},
		{h: "FmtCode", p: "tmpl=7,cfg=5,strict=1", tier: "t", secs: 60},
		{h: "FmtCode", p: "tmpl=7,cfg=4,strict=1", tier: "t", secs: 60},
		{h: "FmtCode", p: "tmpl=25,strict=1", secs: 8},
		{h: "FmtCode", p: "tmpl=27,strict=1", secs: 8},
	},
	"C09": {
		{h: "FmtComments", p: "tmpl=39,strict=2"},
		{h: "FmtComments", p: "tmpl=43,strict=2"},
		{h: "FmtComments", p: "tmpl=40,strict=2", tier: "t", secs: 60},
		{h: "FmtComments", p: "tmpl=41,strict=2", tier: "t", secs: 60},
		{h: "FmtComments", p: "tmpl=44,strict=2"},
		{h: "FmtComments", p: "tmpl=45,strict=2"},
		{h: "FmtComments", p: "n=3,alpha=0,strict=2"},
		{h: "FmtComments", p: "n=1,pad=4096,kind=-1,strict=2"},
		{h: "FmtComments", p: "n=1,pad=65600,kind=-1,strict=2", tier: "t", secs: 60},
		{h: "FmtComments", p: "n=2,nest=24,strict=2"},
		{h: "FmtComments", p: "n=2,alpha=0,wide=20,strict=2"},
		{h: "FmtComments", p: "tmpl=30,strict=2"},
		{h: "FmtComments", p: "tmpl=31,strict=2"},
		{h: "FmtComments", p: "tmpl=28,strict=2"},
		{h: "FmtComments", p: "tmpl=22,strict=2"},
		{h: "FmtComments", p: "n=5,alpha=1,strict=2"},
		{h: "FmtComments", p: "tmpl=19,strict=2"},
		{h: "FmtComments", p: "tmpl=9,strict=2", reaches: "comment"},
		{h: "FmtComments", p: "tmpl=14,strict=2"},
		{h: "FmtComments", p: "tmpl=10,strict=2"},
		{h: "FmtComments", p: "tmpl=5,strict=2"},
		{h: "FmtComments", p: "tmpl=13,strict=2"},
		{h: "FmtComments", p: "tmpl=6,strict=2", secs: 25},
		{h: "FmtComments", p: "tmpl=7,strict=2", secs: 25},
		{h: "FmtComments", p: "n=6,alpha=2,strict=2"},
		{h: "FmtComments", p: "n=6,alpha=1,strict=2"},
		{h: "FmtComments", p: "n=5,alpha=7,strict=2"},
		{h: "FmtComments", p: "n=4,alpha=0,strict=2", secs: 20},
		{h: "FmtComments", p: "n=2,strict=2", tier: "t", secs: 60},
		{h: "FmtComments", p: "n=3,strict=2", tier: "t", secs: 150},
		{h: "FmtComments", p: "tmpl=8,strict=2", tier: "t", secs: 60},
		{h: "FmtComments", p: "tmpl=11,strict=2", tier: "t", secs: 60},
		{h: "FmtComments", p: "tmpl=12,strict=2", tier: "t", secs: 60},
		{h: "FmtComments", p: "tmpl=15,strict=2", tier: "t", secs: 20},
		{h: "FmtComments", p: "tmpl=16,strict=2", tier: "t", secs: 60},
		{h: "FmtComments", p: "n=5,alpha=0,strict=2", tier: "t", secs: 120},
		{h: "FmtComments", p: "n=6,alpha=7,strict=2", tier: "t", secs: 200},
		{h: "FmtComments", p: "n=7,alpha=2,strict=2", tier: "t", secs: 60},
		{h: "FmtComments", p: "n=7,alpha=1,strict=2", tier: "t", secs: 200},
		{h: "FmtComments", p: "n=6,alpha=3,strict=2", tier: "t", secs: 150},
		{h: "FmtComments", p: "tmpl=9,cfg=11,strict=2", tier: "t", secs: 150},
		{h: "FmtComments", p: "tmpl=14,cfg=11,strict=2", tier: "t", secs: 60},
		{h: "FmtComments", p: "tmpl=25,strict=2", secs: 8},
	},
	"C10": {
		{h: "FmtIdempotent", p: "tmpl=39"},
		{h: "FmtIdempotent", p: "tmpl=43"},
		{h: "FmtIdempotent", p: "tmpl=40", tier: "t", secs: 60},
		{h: "FmtIdempotent", p: "tmpl=41", tier: "t", secs: 60},
		{h: "FmtIdempotent", p: "tmpl=42"},
		{h: "FmtIdempotent", p: "tmpl=44"},
		{h: "FmtIdempotent", p: "tmpl=46"},
		{h: "FmtIdempotent", p: "tmpl=45,cfg=3"},
		{h: "FmtIdempotent", p: "n=3,alpha=0"},
		{h: "FmtIdempotent", p: "tmpl=38"},
		{h: "FmtIdempotent", p: "n=1,pad=4096,kind=-1"},
		{h: "FmtIdempotent", p: "n=1,pad=65600,kind=-1", tier: "t", secs: 60},
		{h: "FmtIdempotent", p: "tmpl=36"},
		{h: "FmtIdempotent", p: "tmpl=37,cfg=3"},
		{h: "FmtIdempotent", p: "n=2,nest=24"},
		{h: "FmtIdempotent", p: "n=2,alpha=0,wide=20"},
		{h: "FmtIdempotent", p: "tmpl=30,cfg=3"},
		{h: "FmtIdempotent", p: "tmpl=30,cfg=6"},
		{h: "FmtIdempotent", p: "tmpl=31"},
		{h: "FmtIdempotent", p: "tmpl=32"},
		{h: "FmtIdempotent", p: "tmpl=28"},
		{h: "FmtIdempotent", p: "tmpl=22"},
		{h: "FmtIdempotent", p: "tmpl=21"},
		{h: "FmtIdempotent", p: "tmpl=23,cfg=5"},
		{h: "FmtIdempotent", p: "tmpl=34,cfg=13"},
		{h: "FmtIdempotent", p: "tmpl=34,cfg=15", tier: "t", secs: 60},
		{h: "FmtIdempotent", p: "tmpl=19"},
		{h: "FmtIdempotent", p: "tmpl=20"},
		{h: "FmtIdempotent", p: "tmpl=14"},
		{h: "FmtIdempotent", p: "tmpl=9"},
		{h: "FmtIdempotent", p: "tmpl=10"},
		{h: "FmtIdempotent", p: "tmpl=5"},
		{h: "FmtIdempotent", p: "tmpl=13,cfg=3"},
		{h: "FmtIdempotent", p: "tmpl=17,cfg=3"},
		{h: "FmtIdempotent", p: "tmpl=18,cfg=7"},
		{h: "FmtIdempotent", p: "tmpl=15,cfg=12"},
		{h: "FmtIdempotent", p: "tmpl=14,cfg=11", secs: 15},
		{h: "FmtIdempotent", p: "n=6,alpha=2"},
		{h: "FmtIdempotent", p: "tmpl=17,cfg=6", secs: 15},
		{h: "FmtIdempotent", p: "tmpl=6", secs: 25},
		{h: "FmtIdempotent", p: "tmpl=7", secs: 25},
		{h: "FmtIdempotent", p: "tmpl=8", secs: 25},
		{h: "FmtIdempotent", p: "tmpl=16", secs: 20},
		{h: "FmtIdempotent", p: "n=2", tier: "t", secs: 60},
		{h: "FmtIdempotent", p: "n=3", tier: "t", secs: 150},
		{h: "FmtIdempotent", p: "tmpl=12,cfg=5", tier: "t", secs: 30},
		{h: "FmtIdempotent", p: "tmpl=11,cfg=10", tier: "t", secs: 30},
		{h: "FmtIdempotent", p: "n=4,alpha=0", tier: "t", secs: 60},
		{h: "FmtIdempotent", p: "n=5,alpha=0", tier: "t", secs: 150},
		{h: "FmtIdempotent", p: "n=6,alpha=1", tier: "t", secs: 60},
		{h: "FmtIdempotent", p: "n=7,alpha=2", tier: "t", secs: 60},
		{h: "FmtIdempotent", p: "n=6,alpha=7", tier: "t", secs: 100},
		{h: "FmtIdempotent", p: "tmpl=5,cfg=11", tier: "t", secs: 150},
		{h: "FmtIdempotent", p: "tmpl=9,cfg=11", tier: "t", secs: 150},
		{h: "FmtIdempotent", p: "tmpl=13,cfg=11", tier: "t", secs: 80},
		{h: "FmtIdempotent", p: "tmpl=18,cfg=11", tier: "t", secs: 80},
		{h: "FmtIdempotent", p: "tmpl=17,cfg=12", tier: "t", secs: 60},
		{h: "FmtIdempotent", p: "tmpl=18,cfg=12", tier: "t", secs: 60},
		{h: "FmtIdempotent", p: "tmpl=9,cfg=12", tier: "t", secs: 60},
		{h: "FmtIdempotent", p: "tmpl=7,cfg=4", tier: "t", secs: 60},
		{h: "FmtIdempotent", p: "tmpl=7,cfg=5", tier: "t", secs: 60},
		{h: "FmtIdempotent", p: "tmpl=7,cfg=1", tier: "t", secs: 60},
		{h: "FmtIdempotent", p: "tmpl=25,cfg=3", secs: 8},
		{h: "FmtIdempotent", p: "tmpl=26,cfg=3", secs: 8},
		{h: "FmtIdempotent", p: "tmpl=27,cfg=3", secs: 8},
		{h: "FmtIdempotent", p: "tmpl=26,cfg=6", tier: "t", secs: 60},
	},
	"C11": {
		{h: "FmtTotal", p: "tmpl=39"},
		{h: "FmtTotal", p: "tmpl=43"},
		{h: "FmtTotal", p: "tmpl=40", tier: "t", secs: 60},
		{h: "FmtTotal", p: "tmpl=41", tier: "t", secs: 60},
		{h: "FmtTotal", p: "tmpl=44"},
		{h: "FmtTotal", p: "tmpl=45,cfg=3"},
		{h: "FmtTotal", p: "n=1"},
		{h: "FmtTotal", p: "n=1,pad=4096,kind=-1"},
		{h: "FmtTotal", p: "n=1,pad=65600,kind=-1", tier: "t", secs: 60},
		{h: "FmtTotal", p: "n=2,nest=24"},
		{h: "FmtTotal", p: "n=2,alpha=0,wide=20"},
		{h: "FmtTotal", p: "tmpl=29"},
		{h: "FmtTotal", p: "tmpl=30,cfg=3"},
		{h: "FmtTotal", p: "tmpl=31"},
		{h: "FmtTotal", p: "tmpl=28"},
		{h: "FmtTotal", p: "tmpl=22"},
		{h: "FmtTotal", p: "tmpl=21"},
		{h: "FmtTotal", p: "tmpl=23,cfg=5"},
		{h: "FmtTotal", p: "tmpl=34,cfg=13"},
		{h: "FmtTotal", p: "tmpl=34,cfg=15", tier: "t", secs: 60},
		{h: "FmtTotal", p: "tmpl=19"},
		{h: "FmtTotal", p: "n=2"},
		{h: "FmtTotal", p: "n=3,alpha=0"},
		{h: "FmtTotal", p: "tmpl=14,cfg=2"},
		{h: "FmtTotal", p: "tmpl=9"},
		{h: "FmtTotal", p: "tmpl=10"},
		{h: "FmtTotal", p: "tmpl=5"},
		{h: "FmtTotal", p: "tmpl=15,cfg=2"},
		{h: "FmtTotal", p: "tmpl=13,cfg=3"},
		{h: "FmtTotal", p: "tmpl=18,cfg=3"},
		{h: "FmtTotal", p: "tmpl=17,cfg=3"},
		{h: "FmtTotal", p: "tmpl=16,cfg=3", secs: 15},
		{h: "FmtTotal", p: "tmpl=12,cfg=5"},
		{h: "FmtTotal", p: "tmpl=7", secs: 20},
		{h: "FmtTotal", p: "tmpl=6", secs: 20},
		{h: "FmtTotal", p: "n=6,alpha=2,cfg=5"},
		{h: "FmtTotal", p: "n=4,alpha=0,cfg=1", secs: 15},
		{h: "FmtTotal", p: "n=4,alpha=0", secs: 15},
		{h: "FmtTotal", p: "n=3,cfg=5", tier: "t", secs: 150},
		{h: "FmtTotal", p: "tmpl=8", tier: "t", secs: 60},
		{h: "FmtTotal", p: "tmpl=11,cfg=5", tier: "t", secs: 60},
		{h: "FmtTotal", p: "n=5,alpha=0", tier: "t", secs: 100},
		{h: "FmtTotal", p: "n=5,alpha=0,cfg=5", tier: "t", secs: 100},
		{h: "FmtTotal", p: "n=6,alpha=1", tier: "t", secs: 60},
		{h: "FmtTotal", p: "n=7,alpha=2", tier: "t", secs: 60},
		{h: "FmtTotal", p: "n=6,alpha=3", tier: "t", secs: 100},
		{h: "FmtTotal", p: "n=6,alpha=4", tier: "t", secs: 100},
		{h: "FmtTotal", p: "n=6,alpha=6", tier: "t", secs: 100},
		{h: "FmtTotal", p: "tmpl=5,cfg=2", tier: "t", secs: 60},
		{h: "FmtTotal", p: "tmpl=9,cfg=2", tier: "t", secs: 60},
		{h: "FmtTotal", p: "tmpl=17,cfg=2", tier: "t", secs: 60},
		{h: "FmtTotal", p: "tmpl=18,cfg=2", tier: "t", secs: 60},
		{h: "FmtTotal", p: "tmpl=7,cfg=5", tier: "t", secs: 60},
		{h: "FmtTotal", p: "n=2,deep=40", tier: "t", secs: 60},
		{h: "FmtTotal", p: "n=4,alpha=0,cfg=2", tier: "t", secs: 100},
		{h: "FmtTotal", p: "tmpl=25,cfg=3", secs: 6},
		{h: "FmtTotal", p: "tmpl=26,cfg=3", secs: 6},
		{h: "FmtTotal", p: "tmpl=27,cfg=3", secs: 6},
		{h: "FmtTotal", p: "tmpl=26,cfg=2", tier: "t", secs: 60},
	},
	"C12": {
		{h: "FmtBreaks", p: "tmpl=39"},
		{h: "FmtBreaks", p: "tmpl=43"},
		{h: "FmtBreaks", p: "tmpl=40", tier: "t", secs: 60},
		{h: "FmtBreaks", p: "tmpl=41", tier: "t", secs: 60},
		{h: "FmtBreaks", p: "tmpl=44"},
		{h: "FmtBreaks", p: "n=3,alpha=0"},
		{h: "FmtBreaks", p: "tmpl=38"},
		{h: "FmtBreaks", p: "n=1,pad=4096,kind=-1"},
		{h: "FmtBreaks", p: "n=1,pad=65600,kind=-1", tier: "t", secs: 60},
		{h: "FmtBreaks", p: "n=2,nest=24"},
		{h: "FmtBreaks", p: "n=2,alpha=0,wide=20"},
		{h: "FmtBreaks", p: "tmpl=31"},
		{h: "FmtBreaks", p: "tmpl=30"},
		{h: "FmtBreaks", p: "tmpl=28"},
		{h: "FmtBreaks", p: "tmpl=22"},
		{h: "FmtBreaks", p: "tmpl=19"},
		{h: "FmtBreaks", p: "tmpl=14,cfg=1"},
		{h: "FmtBreaks", p: "tmpl=14"},
		{h: "FmtBreaks", p: "tmpl=9,cfg=1"},
		{h: "FmtBreaks", p: "tmpl=9"},
		{h: "FmtBreaks", p: "tmpl=10"},
		{h: "FmtBreaks", p: "tmpl=10,cfg=1"},
		{h: "FmtBreaks", p: "tmpl=5"},
		{h: "FmtBreaks", p: "tmpl=5,cfg=1"},
		{h: "FmtBreaks", p: "tmpl=7", secs: 25},
		{h: "FmtBreaks", p: "tmpl=6", secs: 25},
		{h: "FmtBreaks", p: "n=6,alpha=2"},
		{h: "FmtBreaks", p: "n=5,alpha=1,cfg=1"},
		{h: "FmtBreaks", p: "n=4,alpha=0", secs: 15},
		{h: "FmtBreaks", p: "n=2", tier: "t", secs: 60},
		{h: "FmtBreaks", p: "n=3", tier: "t", secs: 150},
		{h: "FmtBreaks", p: "tmpl=7,cfg=1", tier: "t", secs: 60},
		{h: "FmtBreaks", p: "tmpl=6,cfg=1", tier: "t", secs: 60},
		{h: "FmtBreaks", p: "tmpl=8", tier: "t", secs: 60},
		{h: "FmtBreaks", p: "tmpl=16,cfg=1", tier: "t", secs: 60},
		{h: "FmtBreaks", p: "tmpl=12", tier: "t", secs: 40},
		{h: "FmtBreaks", p: "tmpl=11", tier: "t", secs: 40},
		{h: "FmtBreaks", p: "n=5,alpha=0", tier: "t", secs: 100},
		{h: "FmtBreaks", p: "n=5,alpha=0,cfg=1", tier: "t", secs: 100},
		{h: "FmtBreaks", p: "n=6,alpha=1", tier: "t", secs: 60},
		{h: "FmtBreaks", p: "n=7,alpha=2", tier: "t", secs: 60},
		{h: "FmtBreaks", p: "n=6,alpha=7", tier: "t", secs: 100},
		{h: "FmtBreaks", p: "tmpl=25", secs: 8},
	},
	"C13": {
		{h: "FmtSpaces", p: "tmpl=39"},
		{h: "FmtSpaces", p: "tmpl=43"},
		{h: "FmtSpaces", p: "tmpl=40", tier: "t", secs: 60},
		{h: "FmtSpaces", p: "tmpl=41", tier: "t", secs: 60},
		{h: "FmtSpaces", p: "tmpl=42"},
		{h: "FmtSpaces", p: "tmpl=44"},
		{h: "FmtSpaces", p: "n=3,alpha=0"},
		{h: "FmtSpaces", p: "n=1,pad=4096,kind=-1"},
		{h: "FmtSpaces", p: "n=1,pad=65600,kind=-1", tier: "t", secs: 60},
		{h: "FmtSpaces", p: "n=2,nest=24"},
		{h: "FmtSpaces", p: "n=2,alpha=0,wide=20"},
		{h: "FmtSpaces", p: "tmpl=30"},
		{h: "FmtSpaces", p: "tmpl=31"},
		{h: "FmtSpaces", p: "tmpl=29", tier: "t", secs: 60},
		{h: "FmtSpaces", p: "tmpl=28"},
		{h: "FmtSpaces", p: "tmpl=22"},
		{h: "FmtSpaces", p: "tmpl=21"},
		{h: "FmtSpaces", p: "tmpl=19"},
		{h: "FmtSpaces", p: "tmpl=14"},
		{h: "FmtSpaces", p: "tmpl=14,cfg=4"},
		{h: "FmtSpaces", p: "tmpl=9"},
		{h: "FmtSpaces", p: "tmpl=10"},
		{h: "FmtSpaces", p: "tmpl=10,cfg=1"},
		{h: "FmtSpaces", p: "tmpl=5,cfg=4"},
		{h: "FmtSpaces", p: "tmpl=13"},
		{h: "FmtSpaces", p: "tmpl=7", secs: 25},
		{h: "FmtSpaces", p: "tmpl=6", secs: 25},
		{h: "FmtSpaces", p: "n=6,alpha=2,cfg=4"},
		{h: "FmtSpaces", p: "n=5,alpha=7"},
		{h: "FmtSpaces", p: "n=4,alpha=0", secs: 15},
		{h: "FmtSpaces", p: "n=2", tier: "t", secs: 60},
		{h: "FmtSpaces", p: "n=3", tier: "t", secs: 150},
		{h: "FmtSpaces", p: "tmpl=7,cfg=4", tier: "t", secs: 60},
		{h: "FmtSpaces", p: "tmpl=7,cfg=1", tier: "t", secs: 60},
		{h: "FmtSpaces", p: "tmpl=8", tier: "t", secs: 60},
		{h: "FmtSpaces", p: "tmpl=16", tier: "t", secs: 60},
		{h: "FmtSpaces", p: "tmpl=17,cfg=6", tier: "t", secs: 40},
		{h: "FmtSpaces", p: "tmpl=18,cfg=3", tier: "t", secs: 40},
		{h: "FmtSpaces", p: "tmpl=12,cfg=5", tier: "t", secs: 40},
		{h: "FmtSpaces", p: "n=5,alpha=0", tier: "t", secs: 100},
		{h: "FmtSpaces", p: "n=6,alpha=1", tier: "t", secs: 60},
		{h: "FmtSpaces", p: "n=7,alpha=2", tier: "t", secs: 60},
		{h: "FmtSpaces", p: "n=6,alpha=7,cfg=4", tier: "t", secs: 100},
		{h: "FmtSpaces", p: "n=6,alpha=3", tier: "t", secs: 150},
		{h: "FmtSpaces", p: "n=6,alpha=4", tier: "t", secs: 150},
		{h: "FmtSpaces", p: "tmpl=25", secs: 8},
		{h: "FmtSpaces", p: "tmpl=26,cfg=3", secs: 8},
	},
	"C14": {
		{h: "FmtLayout", p: "tmpl=39"},
		{h: "FmtLayout", p: "tmpl=43"},
		{h: "FmtLayout", p: "tmpl=40", tier: "t", secs: 60},
		{h: "FmtLayout", p: "tmpl=41", tier: "t", secs: 60},
		{h: "FmtLayout", p: "tmpl=42"},
		{h: "FmtLayout", p: "n=3,alpha=0"},
		{h: "FmtLayout", p: "n=1,pad=4096,kind=-1"},
		{h: "FmtLayout", p: "n=1,pad=65600,kind=-1", tier: "t", secs: 60},
		{h: "FmtLayout", p: "tmpl=35", secs: 20},
		{h: "FmtLayout", p: "tmpl=36"},
		{h: "FmtLayout", p: "n=2,nest=24"},
		{h: "FmtLayout", p: "n=2,alpha=0,wide=20"},
		{h: "FmtLayout", p: "tmpl=31"},
		{h: "FmtLayout", p: "tmpl=12"},
		{h: "FmtLayout", p: "tmpl=31,cfg=4"},
		{h: "FmtLayout", p: "tmpl=31,cfg=5"},
		{h: "FmtLayout", p: "tmpl=28"},
		{h: "FmtLayout", p: "tmpl=22"},
		{h: "FmtLayout", p: "tmpl=21"},
		{h: "FmtLayout", p: "tmpl=23,cfg=5"},
		{h: "FmtLayout", p: "tmpl=19"},
		{h: "FmtLayout", p: "tmpl=14"},
		{h: "FmtLayout", p: "tmpl=9"},
		{h: "FmtLayout", p: "tmpl=10"},
		{h: "FmtLayout", p: "tmpl=5", reaches: "line"},
		{h: "FmtLayout", p: "tmpl=5,cfg=5"},
		{h: "FmtLayout", p: "tmpl=5,cfg=4"},
		{h: "FmtLayout", p: "tmpl=6", secs: 25},
		{h: "FmtLayout", p: "tmpl=7", secs: 25},
		{h: "FmtLayout", p: "n=6,alpha=2"},
		{h: "FmtLayout", p: "n=4,alpha=0", secs: 15},
		{h: "FmtLayout", p: "n=2", tier: "t", secs: 60},
		{h: "FmtLayout", p: "n=3", tier: "t", secs: 150},
		{h: "FmtLayout", p: "tmpl=7,cfg=4", tier: "t", secs: 60},
		{h: "FmtLayout", p: "tmpl=7,cfg=1", tier: "t", secs: 60},
		{h: "FmtLayout", p: "tmpl=6,cfg=1", tier: "t", secs: 60},
		{h: "FmtLayout", p: "tmpl=6,cfg=5", tier: "t", secs: 60},
		{h: "FmtLayout", p: "tmpl=8", tier: "t", secs: 60},
		{h: "FmtLayout", p: "tmpl=16", tier: "t", secs: 60},
		{h: "FmtLayout", p: "tmpl=13", tier: "t", secs: 40},
		{h: "FmtLayout", p: "tmpl=12,cfg=5", tier: "t", secs: 40},
		{h: "FmtLayout", p: "n=5,alpha=0", tier: "t", secs: 100},
		{h: "FmtLayout", p: "n=5,alpha=0,cfg=5", tier: "t", secs: 100},
		{h: "FmtLayout", p: "n=6,alpha=1", tier: "t", secs: 60},
		{h: "FmtLayout", p: "n=7,alpha=2", tier: "t", secs: 60},
		{h: "FmtLayout", p: "n=6,alpha=7", tier: "t", secs: 100},
		{h: "FmtLayout", p: "n=6,alpha=3", tier: "t", secs: 100},
	},
	"C15": {
		{h: "FmtLayout", p: "tmpl=11,cfg=8", secs: 20},
		{h: "FmtLayout", p: "tmpl=11,cfg=9", secs: 20},
		{h: "FmtLayout", p: "tmpl=11,cfg=10", secs: 20},
		{h: "FmtLayout", p: "tmpl=34,cfg=13", secs: 30},
		{h: "FmtLayout", p: "tmpl=34,cfg=15", secs: 30},
		{h: "FmtLayout", p: "tmpl=12,cfg=10", tier: "t", secs: 60},
		{h: "FmtLayout", p: "tmpl=7,cfg=10", tier: "t", secs: 60},
		{h: "FmtLayout", p: "tmpl=5,cfg=9", tier: "t", secs: 60},
	},
	"C16": {
		{h: "FmtLayout", p: "tmpl=12", secs: 20},
		{h: "FmtLayout", p: "tmpl=36"},
		{h: "FmtLayout", p: "tmpl=31"},
		{h: "FmtLayout", p: "tmpl=12,cfg=5", secs: 20},
		{h: "FmtLayout", p: "tmpl=12,cfg=1", secs: 20},
		{h: "FmtLayout", p: "tmpl=34,cfg=14", secs: 30},
		{h: "FmtLayout", p: "tmpl=12,cfg=4", tier: "t", secs: 60},
		{h: "FmtLayout", p: "tmpl=5,cfg=5", tier: "t", secs: 60},
		{h: "FmtLayout", p: "tmpl=12,cfg=10", tier: "t", secs: 60},
	},
	"C17": {
		{h: "FmtStrings", p: "tmpl=39"},
		{h: "FmtStrings", p: "tmpl=43"},
		{h: "FmtStrings", p: "tmpl=40", tier: "t", secs: 60},
		{h: "FmtStrings", p: "tmpl=41", tier: "t", secs: 60},
		{h: "FmtStrings", p: "tmpl=44"},
		{h: "FmtStrings", p: "tmpl=46"},
		{h: "FmtStrings", p: "n=3,alpha=0"},
		{h: "FmtStrings", p: "n=1,pad=4096,kind=-1"},
		{h: "FmtStrings", p: "n=1,pad=65600,kind=-1", tier: "t", secs: 60},
		{h: "FmtStrings", p: "n=2,nest=24"},
		{h: "FmtStrings", p: "n=2,alpha=0,wide=20"},
		{h: "FmtStrings", p: "tmpl=32"},
		{h: "FmtStrings", p: "tmpl=32,cfg=4"},
		{h: "FmtStrings", p: "tmpl=31", tier: "t", secs: 60},
		{h: "FmtStrings", p: "tmpl=28"},
		{h: "FmtStrings", p: "tmpl=8", secs: 25},
		{h: "FmtStrings", p: "tmpl=8,cfg=4", secs: 25},
		{h: "FmtStrings", p: "n=5,alpha=8"},
		{h: "FmtStrings", p: "tmpl=9"},
		{h: "FmtStrings", p: "tmpl=14"},
		{h: "FmtStrings", p: "tmpl=8,cfg=1", tier: "t", secs: 60},
		{h: "FmtStrings", p: "n=6,alpha=8", tier: "t", secs: 100},
		{h: "FmtStrings", p: "n=7,alpha=8", tier: "t", secs: 150},
		{h: "FmtStrings", p: "n=5,alpha=0", tier: "t", secs: 100},
		{h: "FmtStrings", p: "tmpl=16", tier: "t", secs: 60},
		{h: "FmtStrings", p: "tmpl=7", tier: "t", secs: 60},
		{h: "FmtStrings", p: "tmpl=5", tier: "t", secs: 30},
	},
	"C18": {
		{h: "FmtStable", p: "mode=2,n=3,alpha=0,cfg=16"},
		{h: "FmtStable", p: "mode=2,tmpl=14,cfg=16"},
		{h: "FmtStable", p: "mode=1,tmpl=38,cfg=16", tier: "t", secs: 20},
		{h: "FmtStable", p: "mode=0,n=3,alpha=0"},
		{h: "FmtStable", p: "mode=0,n=2,alpha=0,wide=6"},
		{h: "FmtStable", p: "mode=0,tmpl=37,cfg=3"},
		{h: "FmtStable", p: "mode=4,tmpl=31"},
		{h: "FmtStable", p: "mode=0,tmpl=30,cfg=3"},
		{h: "FmtStrings", p: "tmpl=32,warm=1"},
		{h: "FmtLayout", p: "tmpl=31,warm=1"},
		{h: "FmtStable", p: "mode=0,tmpl=28"},
		{h: "FmtStable", p: "mode=5,tmpl=11,cfg=8"},
		{h: "FmtStable", p: "mode=5,tmpl=11,cfg=10"},
		{h: "FmtStable", p: "mode=5,tmpl=11,cfg=13", tier: "t", secs: 30},
		{h: "FmtStable", p: "mode=4,n=3,alpha=0"},
		{h: "FmtStable", p: "mode=4,tmpl=14"},
		{h: "FmtStable", p: "mode=4,tmpl=11"},
		{h: "FmtStable", p: "mode=4,tmpl=12", secs: 10},
		{h: "FmtStable", p: "mode=0,tmpl=24,cfg=3", secs: 10},
		{h: "FmtStable", p: "mode=1,n=3,alpha=0", secs: 15},
		{h: "FmtStable", p: "mode=2,n=3,alpha=0"},
		{h: "FmtStable", p: "mode=3,n=2,alpha=0"},
		{h: "FmtStable", p: "mode=0,tmpl=17,cfg=3", secs: 20},
		{h: "FmtStable", p: "mode=0,tmpl=11,cfg=10", secs: 15},
		{h: "FmtStable", p: "mode=1,tmpl=11", secs: 20},
		{h: "FmtStable", p: "mode=2,tmpl=14"},
		{h: "FmtStable", p: "mode=0,tmpl=14", secs: 15},
		{h: "FmtStable", p: "mode=1,tmpl=14", secs: 15},
		{h: "FmtStable", p: "mode=0,n=4,alpha=0", tier: "t", secs: 60},
		{h: "FmtStable", p: "mode=1,n=4,alpha=0", tier: "t", secs: 60},
		{h: "FmtStable", p: "mode=2,n=4,alpha=0", tier: "t", secs: 60},
		{h: "FmtStable", p: "mode=3,n=4,alpha=0", tier: "t", secs: 150},
		{h: "FmtStable", p: "mode=0,tmpl=18,cfg=3", tier: "t", secs: 60},
		{h: "FmtStable", p: "mode=0,tmpl=16,cfg=3", tier: "t", secs: 100},
		{h: "FmtStable", p: "mode=0,tmpl=13,cfg=5", tier: "t", secs: 60},
		{h: "FmtStable", p: "mode=1,tmpl=12", tier: "t", secs: 60},
		{h: "FmtStable", p: "mode=1,tmpl=17,cfg=6", tier: "t", secs: 60},
		{h: "FmtStable", p: "mode=1,tmpl=9", tier: "t", secs: 60},
		{h: "FmtStable", p: "mode=3,tmpl=14", tier: "t", secs: 60},
		{h: "FmtStable", p: "mode=2,tmpl=5", tier: "t", secs: 60},
		{h: "FmtStable", p: "mode=0,tmpl=26,cfg=3", secs: 15},
		{h: "FmtStable", p: "mode=0,tmpl=24,cfg=6", secs: 10},
		{h: "FmtStable", p: "mode=0,tmpl=26,cfg=6", secs: 10},
	},
	"C19": {
		{h: "FmtWriter", p: "n=2"},
		{h: "FmtWriter", p: "near=1,n=1,nest=12"},
		{h: "FmtWriter", p: "near=1,n=1,wide=8"},
		{h: "FmtWriter", p: "tmpl=28"},
		{h: "FmtWriter", p: "n=3,alpha=0"},
		{h: "FmtWriter", p: "n=5,alpha=2"},
		{h: "FmtWriter", p: "tmpl=14", secs: 15},
		{h: "FmtWriter", p: "near=1,pad=4096,n=2,alpha=2", secs: 20, reaches: "complete,failure"},
		{h: "FmtWriter", p: "n=4,alpha=0", secs: 20},
		{h: "FmtWriter", p: "near=1,pad=4095,n=3,alpha=2", tier: "t", secs: 60},
		{h: "FmtWriter", p: "near=1,pad=4097,n=2,alpha=2", tier: "t", secs: 60},
		{h: "FmtWriter", p: "near=1,pad=8192,n=1,alpha=2", tier: "t", secs: 60},
		{h: "FmtWriter", p: "n=3", tier: "t", secs: 100},
		{h: "FmtWriter", p: "tmpl=9", tier: "t", secs: 100},
		{h: "FmtWriter", p: "tmpl=15", tier: "t", secs: 60},
		{h: "FmtWriter", p: "n=5,alpha=0", tier: "t", secs: 150},
		{h: "FmtWriter", p: "n=6,alpha=2", tier: "t", secs: 60},
	},
	"C20": {
		{h: "NsSort", p: "tmpl=13", secs: 25, reaches: "clause"},
		{h: "NsSort", p: "tmpl=37"},
		{h: "NsSort", p: "tmpl=30"},
		{h: "NsSort", p: "tmpl=24"},
		{h: "NsSort", p: "tmpl=20"},
		{h: "NsSort", p: "tmpl=13,style=1", secs: 25},
		{h: "NsSort", p: "tmpl=15,style=1"},
		{h: "NsSort", p: "tmpl=17"},
		{h: "NsSort", p: "tmpl=18"},
		{h: "NsSort", p: "tmpl=16,style=1", tier: "t", secs: 60},
		{h: "NsSort", p: "tmpl=11", tier: "t", secs: 60},
		{h: "NsSort", p: "tmpl=25", secs: 20},
		{h: "NsSort", p: "tmpl=25,style=1", secs: 20},
		{h: "NsSort", p: "tmpl=26", tier: "t", secs: 60},
	},
	"C21": {
		{h: "NsStyle", p: "tmpl=16", secs: 25, reaches: "clause"},
		{h: "NsStyle", p: "tmpl=37"},
		{h: "NsStyle", p: "tmpl=30"},
		{h: "NsStyle", p: "tmpl=16,sort=1", secs: 25},
		{h: "NsStyle", p: "tmpl=17"},
		{h: "NsStyle", p: "tmpl=18"},
		{h: "NsStyle", p: "tmpl=13", tier: "t", secs: 60},
		{h: "NsStyle", p: "tmpl=15,sort=1", tier: "t", secs: 60},
		{h: "NsStyle", p: "tmpl=11", tier: "t", secs: 60},
		{h: "NsStyle", p: "tmpl=25", secs: 20},
		{h: "NsStyle", p: "tmpl=26", secs: 8},
		{h: "NsStyle", p: "tmpl=25,sort=1", tier: "t", secs: 60},
	},
	"C22": {
		{h: "FmtEstablished", p: "tmpl=39"},
		{h: "FmtEstablished", p: "tmpl=43"},
		{h: "FmtEstablished", p: "tmpl=40", tier: "t", secs: 60},
		{h: "FmtEstablished", p: "tmpl=41", tier: "t", secs: 60},
		{h: "FmtEstablished", p: "n=3,alpha=0"},
		{h: "FmtEstablished", p: "tmpl=38"},
		{h: "FmtEstablished", p: "n=1,pad=4096,kind=-1"},
		{h: "FmtEstablished", p: "n=1,pad=65600,kind=-1", tier: "t", secs: 60},
		{h: "FmtEstablished", p: "n=2,nest=24"},
		{h: "FmtEstablished", p: "n=2,alpha=0,wide=20"},
		{h: "FmtEstablished", p: "tmpl=31"},
		{h: "FmtEstablished", p: "tmpl=30"},
		{h: "FmtEstablished", p: "tmpl=28"},
		{h: "FmtEstablished", p: "tmpl=22"},
		{h: "FmtEstablished", p: "tmpl=19"},
		{h: "FmtEstablished", p: "tmpl=14"},
		{h: "FmtEstablished", p: "tmpl=9"},
		{h: "FmtEstablished", p: "tmpl=10"},
		{h: "FmtEstablished", p: "tmpl=5"},
		{h: "FmtEstablished", p: "tmpl=7", secs: 25},
		{h: "FmtEstablished", p: "tmpl=6", secs: 25},
		{h: "FmtEstablished", p: "tmpl=15"},
		{h: "FmtEstablished", p: "tmpl=13"},
		{h: "FmtEstablished", p: "n=6,alpha=2"},
		{h: "FmtEstablished", p: "n=5,alpha=1"},
		{h: "FmtEstablished", p: "n=4,alpha=0", secs: 15},
		{h: "FmtEstablished", p: "n=2", tier: "t", secs: 60},
		{h: "FmtEstablished", p: "n=3", tier: "t", secs: 150},
		{h: "FmtEstablished", p: "tmpl=8", tier: "t", secs: 60},
		{h: "FmtEstablished", p: "tmpl=16", tier: "t", secs: 60},
		{h: "FmtEstablished", p: "tmpl=17,cfg=6", tier: "t", secs: 40},
		{h: "FmtEstablished", p: "tmpl=18,cfg=3", tier: "t", secs: 40},
		{h: "FmtEstablished", p: "n=5,alpha=0", tier: "t", secs: 100},
		{h: "FmtEstablished", p: "n=6,alpha=1", tier: "t", secs: 60},
		{h: "FmtEstablished", p: "n=7,alpha=2", tier: "t", secs: 60},
		{h: "FmtEstablished", p: "n=6,alpha=7", tier: "t", secs: 100},
		{h: "FmtEstablished", p: "n=6,alpha=3", tier: "t", secs: 150},
		{h: "FmtEstablished", p: "tmpl=25", secs: 8},
		{h: "FmtEstablished", p: "tmpl=26,cfg=6", tier: "t", secs: 30},
	},
	"C23": {
		{h: "FmtSwitch", p: "tmpl=14", secs: 20},
		{h: "FmtSwitch", p: "tmpl=38"},
		{h: "FmtCompose", p: "tmpl=30", secs: 10},
		{h: "NsSort", p: "tmpl=13,lines=1", secs: 10},
		{h: "NsSort", p: "tmpl=15,lines=1", secs: 5},
		{h: "FmtCompose", p: "tmpl=31", tier: "t", secs: 60},
		{h: "FmtSwitch", p: "tmpl=15,ns=1"},
		{h: "FmtSwitch", p: "n=4,alpha=2"},
		{h: "FmtSwitch", p: "n=4,alpha=1", secs: 15},
		{h: "FmtDefaults", p: "tmpl=14", secs: 15},
		{h: "FmtDefaults", p: "tmpl=15", secs: 15},
		{h: "FmtDefaults", p: "n=3,alpha=0", secs: 15},
		{h: "FmtDefaults", p: "tmpl=17", secs: 20},
		{h: "FmtSwitch", p: "tmpl=5", tier: "t", secs: 100},
		{h: "FmtSwitch", p: "n=5,alpha=1", tier: "t", secs: 60},
		{h: "FmtSwitch", p: "n=4,alpha=0", tier: "t", secs: 150},
		{h: "FmtSwitch", p: "tmpl=9", tier: "t", secs: 150},
		{h: "FmtDefaults", p: "tmpl=5", tier: "t", secs: 100},
		{h: "FmtDefaults", p: "tmpl=9", tier: "t", secs: 100},
		{h: "FmtDefaults", p: "tmpl=16", tier: "t", secs: 150},
		{h: "FmtDefaults", p: "n=4,alpha=0", tier: "t", secs: 60},
		{h: "FmtDefaults", p: "tmpl=18", tier: "t", secs: 60},
		{h: "FmtCompose", p: "tmpl=17", secs: 15},
		{h: "FmtCompose", p: "tmpl=18", secs: 10},
		{h: "FmtCompose", p: "tmpl=14", secs: 10},
		{h: "FmtCompose", p: "tmpl=13", secs: 10},
		{h: "FmtCompose", p: "tmpl=26", secs: 15},
		{h: "FmtCompose", p: "tmpl=16", secs: 10},
		{h: "FmtCompose", p: "n=4,alpha=1", secs: 10},
		{h: "FmtCompose", p: "tmpl=9", tier: "t", secs: 40},
		{h: "FmtCompose", p: "tmpl=15", tier: "t", secs: 40},
		{h: "FmtCompose", p: "tmpl=24", tier: "t", secs: 40},
		{h: "FmtCompose", p: "tmpl=25", tier: "t", secs: 40},
		{h: "FmtCompose", p: "tmpl=27", tier: "t", secs: 40},
		{h: "FmtCompose", p: "tmpl=22", tier: "t", secs: 40},
	},
	"C24": {
		{h: "NsUse", p: "tmpl=17", secs: 25, reaches: "use"},
		{h: "NsUse", p: "tmpl=37"},
		{h: "NsUse", p: "tmpl=30"},
		{h: "NsUse", p: "tmpl=24"},
		{h: "NsUse", p: "tmpl=18"},
		{h: "NsUse", p: "tmpl=15"},
		{h: "NsUse", p: "tmpl=13"},
		{h: "NsUse", p: "tmpl=16", tier: "t", secs: 60},
		{h: "NsUse", p: "tmpl=11", tier: "t", secs: 60},
		{h: "NsUse", p: "tmpl=26", secs: 25},
		{h: "NsUse", p: "tmpl=25", secs: 8},
	},
	"C25": {
		{h: "NsUnused", p: "tmpl=18", secs: 25, reaches: "kept,dropped"},
		{h: "NsUnused", p: "tmpl=37"},
		{h: "NsUnused", p: "tmpl=30"},
		{h: "NsUnused", p: "tmpl=24"},
		{h: "NsUnused", p: "tmpl=17"},
		{h: "NsUnused", p: "tmpl=15"},
		{h: "NsUnused", p: "tmpl=11"},
		{h: "NsUnused", p: "tmpl=13"},
		{h: "NsUnused", p: "tmpl=16", tier: "t", secs: 60},
		{h: "NsUnused", p: "tmpl=27", secs: 25},
		{h: "NsUnused", p: "tmpl=25", secs: 8},
	},
	"C26": {
		{h: "CliConfig", p: "conf=0", secs: 30, reaches: "applied,rejected", pkg: "cli"},
		{h: "CliConfig", p: "conf=1", reaches: "applied,rejected", pkg: "cli"},
		{h: "CliConfig", p: "conf=2", secs: 30, pkg: "cli"},
		{h: "CliConfig", p: "n=2", pkg: "cli"},
		{h: "CliConfig", p: "n=3,alpha=0", pkg: "cli"},
		{h: "CliConfig", p: "conf=0,modes=1", tier: "t", secs: 200, pkg: "cli"},
		{h: "CliConfig", p: "conf=1,modes=1", tier: "t", secs: 60, pkg: "cli"},
		{h: "CliConfig", p: "n=3", tier: "t", secs: 150, pkg: "cli"},
		{h: "CliConfig", p: "n=4,alpha=0", tier: "t", secs: 60, pkg: "cli"},
		{h: "CliConfig", p: "n=5,alpha=1", tier: "t", secs: 60, pkg: "cli"},
	},
	"C27": {
		{h: "CliFiles", p: "n=3,alpha=0", secs: 30, reaches: "refused,rejected,written", pkg: "cli"},
		{h: "CliFiles", p: "tmpl=33", pkg: "cli"},
		{h: "CliFiles", p: "n=1,alpha=2,pad=65600", secs: 20, pkg: "cli"},
		{h: "CliFiles", p: "tmpl=28", pkg: "cli"},
		{h: "CliFiles", p: "n=1,alpha=2,names=1", pkg: "cli"},
		{h: "CliFiles", p: "n=4,alpha=2", pkg: "cli"},
		{h: "CliFiles", p: "n=2", pkg: "cli"},
		{h: "CliFiles", p: "tmpl=3", pkg: "cli"},
		{h: "CliFiles", p: "tmpl=14", secs: 25, pkg: "cli"},
		{h: "CliFiles", p: "n=3", tier: "t", secs: 200, pkg: "cli"},
		{h: "CliFiles", p: "n=5,alpha=2", tier: "t", secs: 60, pkg: "cli"},
		{h: "CliFiles", p: "n=4,alpha=0", tier: "t", secs: 100, pkg: "cli"},
		{h: "CliFiles", p: "tmpl=9", tier: "t", secs: 60, pkg: "cli"},
		{h: "CliFiles", p: "tmpl=8", tier: "t", secs: 60, pkg: "cli"},
	},
	"C28": {
		{h: "CliFaults", p: "n=2,alpha=2", reaches: "failure,no failure", pkg: "cli"},
		{h: "CliBroken", p: "n=1,alpha=2", reaches: "broken", pkg: "cli"},
		{h: "CliFaults", p: "tmpl=3", secs: 20, pkg: "cli"},
		{h: "CliFaults", p: "n=1", pkg: "cli"},
		{h: "CliFaults", p: "n=2,alpha=0", secs: 25, pkg: "cli"},
		{h: "CliFaults", p: "n=2,alpha=2,faults=2", tier: "t", secs: 60, pkg: "cli"},
		{h: "CliFaults", p: "n=3,alpha=2", tier: "t", secs: 60, pkg: "cli"},
		{h: "CliFaults", p: "n=3,alpha=0", tier: "t", secs: 100, pkg: "cli"},
		{h: "CliFaults", p: "n=3,alpha=2,faults=3", tier: "t", secs: 150, pkg: "cli"},
	},
	"C29": {
		{h: "CliWalk", p: "n=1", pkg: "cli"},
		{h: "CliWalk", p: "n=2", pkg: "cli"},
		{h: "CliWalk", p: "n=3", pkg: "cli"},
		{h: "CliWalk", p: "n=4", pkg: "cli"},
		{h: "CliWalk", p: "tmpl=0", reaches: "none,processed", pkg: "cli"},
		{h: "CliWalk", p: "tmpl=0,exts=1", pkg: "cli"},
		{h: "CliWalk", p: "tmpl=0,layout=3", pkg: "cli"},
		{h: "CliWalk", p: "n=6,layout=3", pkg: "cli"},
		{h: "CliWalk", p: "n=8,layout=0,exts=1", tier: "t", secs: 60, pkg: "cli"},
		{h: "CliWalk", p: "n=12,layout=3", tier: "t", secs: 60, pkg: "cli"},
		{h: "CliWalk", p: "n=3,exts=1", pkg: "cli"},
		{h: "CliWalk", p: "n=5", tier: "t", secs: 100, pkg: "cli"},
		{h: "CliWalk", p: "n=6", tier: "t", secs: 100, pkg: "cli"},
		{h: "CliWalk", p: "n=7", tier: "t", secs: 100, pkg: "cli"},
		{h: "CliWalk", p: "n=5,exts=1", tier: "t", secs: 100, pkg: "cli"},
	},
	"C30": {
		{h: "CliFlags", p: "flags=1", pkg: "cli"},
		{h: "CliFlags", p: "flags=2", secs: 30, reaches: "known,unknown", pkg: "cli"},
		{h: "CliWhere", p: "flags=0", reaches: "found,missing", pkg: "cli"},
		{h: "CliFlags", p: "flags=3", tier: "t", secs: 200, pkg: "cli"},
	},
	"C31": {
		{h: "CliCrash", p: "n=2,alpha=2", reaches: "complete,crash", pkg: "cli"},
		{h: "CliCrash", p: "tmpl=33", pkg: "cli"},
		{h: "CliCrash", p: "n=3,alpha=0", pkg: "cli"},
		{h: "CliCrash", p: "tmpl=3", pkg: "cli"},
		{h: "CliCrash", p: "tmpl=14", pkg: "cli"},
		{h: "CliCrash", p: "n=4,alpha=2", tier: "t", secs: 60, pkg: "cli"},
		{h: "CliCrash", p: "n=3", tier: "t", secs: 100, pkg: "cli"},
		{h: "CliCrash", p: "tmpl=9", tier: "t", secs: 60, pkg: "cli"},
	},
	"C32": {
		{h: "Inspect", p: "pieces=2"},
		{h: "Inspect", p: "tmpl=39", tier: "t", secs: 120},
		{h: "Inspect", p: "n=2", reaches: "tree"},
		{h: "Inspect", p: "n=1,pad=300,kind=-1"},
		{h: "Inspect", p: "n=2,alpha=0,nest=6"},
		{h: "Inspect", p: "n=1,wide=6"},
		{h: "Inspect", p: "tmpl=29,opts=1", secs: 20},
		{h: "Inspect", p: "tmpl=28"},
		{h: "Inspect", p: "n=4,alpha=0"},
		{h: "Inspect", p: "tmpl=19", secs: 20},
		{h: "Inspect", p: "tmpl=3"},
		{h: "Inspect", p: "tmpl=4"},
		{h: "Inspect", p: "tmpl=0"},
		{h: "Inspect", p: "tmpl=1"},
		{h: "Inspect", p: "n=3", secs: 20},
		{h: "Inspect", p: "n=4", tier: "t", secs: 200},
		{h: "Inspect", p: "n=5,alpha=0", tier: "t", secs: 200},
	},
}
