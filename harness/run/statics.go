// Code generated by "vh statics". DO NOT EDIT.

package run

func init() {
	Statics = []Static{
		static[struct {
			F0 *struct {
				F0 string `json:"b"`
				F1 int32  `json:"c"`
				F2 bool   `json:"d,omitempty"`
			} `json:"steps,omitempty"`
			F1 uint16 `json:"with space,omitempty"`
		}]("{\"f\":{\"steps\":{\"p\":\"o\",\"t\":{\"f\":{\"b\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:bb\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"c\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"i16\"}},\"d\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}},\"k\":\"st\"}},\"with space\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"u8\"}}},\"k\":\"st\"}", "{\"f\":{\"steps\":{\"t\":{\"e\":{\"f\":{\"b\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"c\":{\"t\":{\"g\":\"int32\"},\"oe\":false},\"d\":{\"t\":{\"g\":\"bool\"},\"oe\":true}},\"g\":\"struct\"},\"g\":\"ptr\"},\"oe\":true},\"with space\":{\"t\":{\"g\":\"uint16\"},\"oe\":true}},\"g\":\"struct\"}"),
		static[struct {
			F0 *string `json:"a,omitempty"`
			F1 struct {
				F0 string `json:"b"`
				F1 int32  `json:"c"`
				F2 *bool  `json:"d,omitempty"`
			} `json:"d"`
			F2 *uint32 `json:"uid,omitempty"`
		}]("{\"f\":{\"a\":{\"p\":\"o\",\"t\":{\"k\":\"e\",\"s\":[\"s:x: y\",\"s:line%a;break\"]}},\"d\":{\"p\":\"r\",\"t\":{\"f\":{\"b\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:bb\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"c\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"i16\"}},\"d\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}},\"k\":\"st\"}},\"uid\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"u16\"}}},\"k\":\"st\"}", "{\"f\":{\"a\":{\"t\":{\"e\":{\"g\":\"string\"},\"g\":\"ptr\"},\"oe\":true},\"d\":{\"t\":{\"f\":{\"b\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"c\":{\"t\":{\"g\":\"int32\"},\"oe\":false},\"d\":{\"t\":{\"e\":{\"g\":\"bool\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"},\"oe\":false},\"uid\":{\"t\":{\"e\":{\"g\":\"uint32\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"}"),
		static[struct {
			F0 *struct {
				F0 string `json:"b"`
				F1 int32  `json:"c"`
				F2 *bool  `json:"d,omitempty"`
			} `json:"b,omitempty"`
			F1 *string  `json:"bar,omitempty"`
			F2 []string `json:"x1"`
		}]("{\"f\":{\"b\":{\"p\":\"o\",\"t\":{\"f\":{\"b\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:bb\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"c\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"i16\"}},\"d\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}},\"k\":\"st\"}},\"bar\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"rex\"}},\"x1\":{\"p\":\"r\",\"t\":{\"e\":{\"k\":\"b\",\"n\":\"str\"},\"k\":\"ol\"}}},\"k\":\"st\"}", "{\"f\":{\"b\":{\"t\":{\"e\":{\"f\":{\"b\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"c\":{\"t\":{\"g\":\"int32\"},\"oe\":false},\"d\":{\"t\":{\"e\":{\"g\":\"bool\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"},\"g\":\"ptr\"},\"oe\":true},\"bar\":{\"t\":{\"e\":{\"g\":\"string\"},\"g\":\"ptr\"},\"oe\":true},\"x1\":{\"t\":{\"e\":{\"g\":\"string\"},\"g\":\"slice\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 any `json:"x1"`
		}]("{\"f\":{\"x1\":{\"p\":\"r\",\"t\":{\"e\":{\"k\":\"b\",\"n\":\"int\"},\"k\":\"mp\"}}},\"k\":\"st\"}", "{\"f\":{\"x1\":{\"t\":{\"g\":\"any\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 int16   `json:"lenses"`
			F1 int32   `json:"lin"`
			F2 *string `json:"meta,omitempty"`
			F3 int16   `json:"title,omitempty"`
		}]("{\"f\":{\"lenses\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"n:9\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"i8\"}}},\"lin\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"i16\"}},\"meta\":{\"p\":\"o\",\"t\":{\"dv\":{\"a\":\"s:%22;q%22;\"},\"k\":\"df\",\"t\":{\"k\":\"e\",\"s\":[\"s:%e9;\",\"s:%22;q%22;\",\"s:two words\"]}}},\"title\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"i8\"}}},\"k\":\"st\"}", "{\"f\":{\"lenses\":{\"t\":{\"g\":\"int16\"},\"oe\":false},\"lin\":{\"t\":{\"g\":\"int32\"},\"oe\":false},\"meta\":{\"t\":{\"e\":{\"g\":\"string\"},\"g\":\"ptr\"},\"oe\":true},\"title\":{\"t\":{\"g\":\"int16\"},\"oe\":true}},\"g\":\"struct\"}"),
		static[struct {
			F0 struct {
				F0 string `json:"b"`
				F1 int32  `json:"c"`
				F2 *bool  `json:"d,omitempty"`
			} `json:"for"`
		}]("{\"f\":{\"for\":{\"p\":\"r\",\"t\":{\"f\":{\"b\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:bb\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"c\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"i16\"}},\"d\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}},\"k\":\"st\"}}},\"k\":\"st\"}", "{\"f\":{\"for\":{\"t\":{\"f\":{\"b\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"c\":{\"t\":{\"g\":\"int32\"},\"oe\":false},\"d\":{\"t\":{\"e\":{\"g\":\"bool\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 int16 `json:"a"`
			F1 struct {
				F0 uint16 `json:"0,omitempty"`
			} `json:"bar"`
			F2 struct {
				F0 bool  `json:"0"`
				F1 *bool `json:"spec,omitempty"`
				F2 int64 `json:"title"`
			} `json:"d"`
		}]("{\"f\":{\"a\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"n:2\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"i8\"}}},\"bar\":{\"p\":\"r\",\"t\":{\"f\":{\"0\":{\"p\":\"o\",\"t\":{\"dv\":{\"a\":\"n:128\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"u8\"}}}},\"k\":\"st\"}},\"d\":{\"p\":\"r\",\"t\":{\"f\":{\"0\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"b:true\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}},\"spec\":{\"p\":\"o\",\"t\":{\"dv\":{\"a\":\"b:true\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}},\"title\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"n:3\"]}}},\"k\":\"st\"}}},\"k\":\"st\"}", "{\"f\":{\"a\":{\"t\":{\"g\":\"int16\"},\"oe\":false},\"bar\":{\"t\":{\"f\":{\"0\":{\"t\":{\"g\":\"uint16\"},\"oe\":true}},\"g\":\"struct\"},\"oe\":false},\"d\":{\"t\":{\"f\":{\"0\":{\"t\":{\"g\":\"bool\"},\"oe\":false},\"spec\":{\"t\":{\"e\":{\"g\":\"bool\"},\"g\":\"ptr\"},\"oe\":true},\"title\":{\"t\":{\"g\":\"int64\"},\"oe\":false}},\"g\":\"struct\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 struct {
				F0 bool `json:"ee"`
			} `json:"bar"`
			F1 any  `json:"title,omitempty"`
			F2 bool `json:"x1"`
		}]("{\"f\":{\"bar\":{\"p\":\"r\",\"t\":{\"f\":{\"ee\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}},\"k\":\"st\"}},\"title\":{\"p\":\"o\",\"t\":{\"e\":{\"k\":\"b\",\"n\":\"str\"},\"k\":\"mp\"}},\"x1\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"b:false\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}}},\"k\":\"st\"}", "{\"f\":{\"bar\":{\"t\":{\"f\":{\"ee\":{\"t\":{\"g\":\"bool\"},\"oe\":false}},\"g\":\"struct\"},\"oe\":false},\"title\":{\"t\":{\"g\":\"any\"},\"oe\":true},\"x1\":{\"t\":{\"g\":\"bool\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 int64 `json:"ee"`
		}]("{\"f\":{\"ee\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"n:2147483647\"]}}},\"k\":\"st\"}", "{\"f\":{\"ee\":{\"t\":{\"g\":\"int64\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 uint64   `json:"b"`
			F1 []uint16 `json:"bar"`
			F2 *string  `json:"d,omitempty"`
			F3 string   `json:"title"`
			F4 int64    `json:"x1"`
		}]("{\"f\":{\"b\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"u32\"}},\"bar\":{\"p\":\"r\",\"t\":{\"e\":{\"k\":\"b\",\"n\":\"u8\"},\"k\":\"ol\"}},\"d\":{\"p\":\"o\",\"t\":{\"dv\":{\"a\":\"s:*\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"title\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:null\",\"s:x\",\"s:%22;q%22;\"]}},\"x1\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"n:255\"]}}},\"k\":\"st\"}", "{\"f\":{\"b\":{\"t\":{\"g\":\"uint64\"},\"oe\":false},\"bar\":{\"t\":{\"e\":{\"g\":\"uint16\"},\"g\":\"slice\"},\"oe\":false},\"d\":{\"t\":{\"e\":{\"g\":\"string\"},\"g\":\"ptr\"},\"oe\":true},\"title\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"x1\":{\"t\":{\"g\":\"int64\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 string `json:"b"`
			F1 bool   `json:"foo"`
		}]("{\"f\":{\"b\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"min1\"}},\"foo\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}},\"k\":\"st\"}", "{\"f\":{\"b\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"foo\":{\"t\":{\"g\":\"bool\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 uint32 `json:"uid"`
		}]("{\"f\":{\"uid\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"u16\"}}},\"k\":\"st\"}", "{\"f\":{\"uid\":{\"t\":{\"g\":\"uint32\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 string `json:"schema"`
			F1 uint16 `json:"title"`
		}]("{\"f\":{\"schema\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:xy\"},\"k\":\"df\",\"t\":{\"k\":\"e\",\"s\":[\"s:xy\",\"s:true\",\"s:1\"]}}},\"title\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"n:128\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"u8\"}}}},\"k\":\"st\"}", "{\"f\":{\"schema\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"title\":{\"t\":{\"g\":\"uint16\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 struct {
				F0 any    `json:"a"`
				F1 string `json:"b,omitempty"`
				F2 struct {
					F0 string `json:"d"`
				} `json:"bar"`
				F3 struct {
					F0 string  `json:"a"`
					F1 *string `json:"bar,omitempty"`
					F2 int64   `json:"d"`
					F3 int64   `json:"name"`
					F4 string  `json:"x1,omitempty"`
				} `json:"spec"`
				F4 struct {
					F0 uint64 `json:"input,omitempty"`
					F1 int64  `json:"lenses,omitempty"`
					F2 uint16 `json:"meta,omitempty"`
				} `json:"uid"`
			} `json:"ee"`
			F1 *string `json:"foo,omitempty"`
			F2 int64   `json:"meta"`
			F3 struct {
				F0 struct {
					F0 int64 `json:"lacunas"`
				} `json:"ee"`
				F1 string `json:"for,omitempty"`
				F2 string `json:"meta"`
				F3 string `json:"x1"`
			} `json:"title"`
			F4 []int64 `json:"with-dash"`
		}]("{\"f\":{\"ee\":{\"p\":\"r\",\"t\":{\"f\":{\"a\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"pos\"}},\"b\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"str\"}},\"bar\":{\"p\":\"r\",\"t\":{\"f\":{\"d\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"k\":\"st\"}},\"spec\":{\"p\":\"r\",\"t\":{\"f\":{\"a\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"str\"}},\"bar\":{\"p\":\"o\",\"t\":{\"k\":\"e\",\"s\":[\"s:\",\"s:true\",\"s:xy\",\"s:*\"]}},\"d\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"n:-1\",\"n:255\"]}},\"name\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"i32\"}},\"x1\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"k\":\"st\"}},\"uid\":{\"p\":\"r\",\"t\":{\"f\":{\"input\":{\"p\":\"o\",\"t\":{\"dv\":{\"a\":\"n:256\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"u32\"}}},\"lenses\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"i32\"}},\"meta\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"u8\"}}},\"k\":\"st\"}}},\"k\":\"st\"}},\"foo\":{\"p\":\"o\",\"t\":{\"dv\":{\"a\":\"s:\\u003c\\u0026\\u003e\"},\"k\":\"df\",\"t\":{\"k\":\"e\",\"s\":[\"s:\\u003c\\u0026\\u003e\",\"s:1\"]}}},\"meta\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"n:-1\",\"n:2\"]}},\"title\":{\"p\":\"r\",\"t\":{\"f\":{\"ee\":{\"p\":\"r\",\"t\":{\"f\":{\"lacunas\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"n:4\",\"n:5\"]}}},\"k\":\"st\"}},\"for\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"str\"}},\"meta\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"str\"}},\"x1\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:x: y\"]}}},\"k\":\"st\"}},\"with-dash\":{\"p\":\"r\",\"t\":{\"e\":{\"k\":\"b\",\"n\":\"i32\"},\"k\":\"ol\"}}},\"k\":\"st\"}", "{\"f\":{\"ee\":{\"t\":{\"f\":{\"a\":{\"t\":{\"g\":\"any\"},\"oe\":false},\"b\":{\"t\":{\"g\":\"string\"},\"oe\":true},\"bar\":{\"t\":{\"f\":{\"d\":{\"t\":{\"g\":\"string\"},\"oe\":false}},\"g\":\"struct\"},\"oe\":false},\"spec\":{\"t\":{\"f\":{\"a\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"bar\":{\"t\":{\"e\":{\"g\":\"string\"},\"g\":\"ptr\"},\"oe\":true},\"d\":{\"t\":{\"g\":\"int64\"},\"oe\":false},\"name\":{\"t\":{\"g\":\"int64\"},\"oe\":false},\"x1\":{\"t\":{\"g\":\"string\"},\"oe\":true}},\"g\":\"struct\"},\"oe\":false},\"uid\":{\"t\":{\"f\":{\"input\":{\"t\":{\"g\":\"uint64\"},\"oe\":true},\"lenses\":{\"t\":{\"g\":\"int64\"},\"oe\":true},\"meta\":{\"t\":{\"g\":\"uint16\"},\"oe\":true}},\"g\":\"struct\"},\"oe\":false}},\"g\":\"struct\"},\"oe\":false},\"foo\":{\"t\":{\"e\":{\"g\":\"string\"},\"g\":\"ptr\"},\"oe\":true},\"meta\":{\"t\":{\"g\":\"int64\"},\"oe\":false},\"title\":{\"t\":{\"f\":{\"ee\":{\"t\":{\"f\":{\"lacunas\":{\"t\":{\"g\":\"int64\"},\"oe\":false}},\"g\":\"struct\"},\"oe\":false},\"for\":{\"t\":{\"g\":\"string\"},\"oe\":true},\"meta\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"x1\":{\"t\":{\"g\":\"string\"},\"oe\":false}},\"g\":\"struct\"},\"oe\":false},\"with-dash\":{\"t\":{\"e\":{\"g\":\"int64\"},\"g\":\"slice\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 int16   `json:"c"`
			F1 *string `json:"foo,omitempty"`
		}]("{\"f\":{\"c\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"i8\"}},\"foo\":{\"p\":\"o\",\"t\":{\"k\":\"e\",\"s\":[\"s:c\",\"s:xy\",\"s:a\",\"s:line%a;break\"]}}},\"k\":\"st\"}", "{\"f\":{\"c\":{\"t\":{\"g\":\"int16\"},\"oe\":false},\"foo\":{\"t\":{\"e\":{\"g\":\"string\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"}"),
		static[struct {
			F0 struct {
				F0 string `json:"a"`
				F1 any    `json:"spec"`
			} `json:"b"`
			F1 *struct {
				F0 bool `json:"meta"`
			} `json:"foo,omitempty"`
			F2 bool `json:"uid"`
		}]("{\"f\":{\"b\":{\"p\":\"r\",\"t\":{\"f\":{\"a\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"str\"}},\"spec\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"lt10\"}}},\"k\":\"st\"}},\"foo\":{\"p\":\"o\",\"t\":{\"f\":{\"meta\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"b:false\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}}},\"k\":\"st\"}},\"uid\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"b:false\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}}},\"k\":\"st\"}", "{\"f\":{\"b\":{\"t\":{\"f\":{\"a\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"spec\":{\"t\":{\"g\":\"any\"},\"oe\":false}},\"g\":\"struct\"},\"oe\":false},\"foo\":{\"t\":{\"e\":{\"f\":{\"meta\":{\"t\":{\"g\":\"bool\"},\"oe\":false}},\"g\":\"struct\"},\"g\":\"ptr\"},\"oe\":true},\"uid\":{\"t\":{\"g\":\"bool\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 *int64 `json:"d,omitempty"`
			F1 []any  `json:"x1"`
		}]("{\"f\":{\"d\":{\"p\":\"o\",\"t\":{\"dv\":{\"a\":\"n:3\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"i32\"}}},\"x1\":{\"p\":\"r\",\"t\":{\"e\":{\"alts\":[{\"f\":{\"k\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:_|_\"]}},\"title\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:1\",\"s:true\",\"s:x\"]}}},\"k\":\"st\"},{\"f\":{\"examples\":{\"p\":\"o\",\"t\":{\"k\":\"e\",\"s\":[\"n:65535\",\"n:4\",\"n:5000000000\"]}},\"k\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:hello\"]}},\"title\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"num\"}}},\"k\":\"st\"}],\"k\":\"u\"},\"k\":\"ol\"}}},\"k\":\"st\"}", "{\"f\":{\"d\":{\"t\":{\"e\":{\"g\":\"int64\"},\"g\":\"ptr\"},\"oe\":true},\"x1\":{\"t\":{\"e\":{\"g\":\"any\"},\"g\":\"slice\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 string  `json:"foo"`
			F1 string  `json:"meta"`
			F2 *string `json:"x1,omitempty"`
		}]("{\"f\":{\"foo\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:x: y\"]}},\"meta\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"str\"}},\"x1\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"rex\"}}},\"k\":\"st\"}", "{\"f\":{\"foo\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"meta\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"x1\":{\"t\":{\"e\":{\"g\":\"string\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"}"),
		static[struct {
			F0 string `json:"c"`
			F1 struct {
				F0 string `json:"uid"`
			} `json:"foo"`
			F2 *string `json:"with space,omitempty"`
		}]("{\"f\":{\"c\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:*\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"foo\":{\"p\":\"r\",\"t\":{\"f\":{\"uid\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:xy\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}}},\"k\":\"st\"}},\"with space\":{\"p\":\"o\",\"t\":{\"k\":\"e\",\"s\":[\"s:b\"]}}},\"k\":\"st\"}", "{\"f\":{\"c\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"foo\":{\"t\":{\"f\":{\"uid\":{\"t\":{\"g\":\"string\"},\"oe\":false}},\"g\":\"struct\"},\"oe\":false},\"with space\":{\"t\":{\"e\":{\"g\":\"string\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"}"),
		static[struct {
			F0 int16 `json:"bar,omitempty"`
			F1 int64 `json:"from"`
			F2 struct {
				F0 int16 `json:"ee"`
				F1 struct {
					F0 string `json:"meta,omitempty"`
					F1 int64  `json:"spec"`
					F2 uint16 `json:"uid"`
					F3 uint16 `json:"version"`
				} `json:"foo"`
				F2 string `json:"title"`
			} `json:"meta"`
			F3 uint32 `json:"title,omitempty"`
			F4 string `json:"uid"`
		}]("{\"f\":{\"bar\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"i8\"}},\"from\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"n:5000000000\",\"n:-129\"]}},\"meta\":{\"p\":\"r\",\"t\":{\"f\":{\"ee\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"i8\"}},\"foo\":{\"p\":\"r\",\"t\":{\"f\":{\"meta\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"str\"}},\"spec\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"n:10\",\"n:2147483647\"]}},\"uid\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"u8\"}},\"version\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"u8\"}}},\"k\":\"st\"}},\"title\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:null\",\"s:true\",\"s:1\"]}}},\"k\":\"st\"}},\"title\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"u16\"}},\"uid\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"rex\"}}},\"k\":\"st\"}", "{\"f\":{\"bar\":{\"t\":{\"g\":\"int16\"},\"oe\":true},\"from\":{\"t\":{\"g\":\"int64\"},\"oe\":false},\"meta\":{\"t\":{\"f\":{\"ee\":{\"t\":{\"g\":\"int16\"},\"oe\":false},\"foo\":{\"t\":{\"f\":{\"meta\":{\"t\":{\"g\":\"string\"},\"oe\":true},\"spec\":{\"t\":{\"g\":\"int64\"},\"oe\":false},\"uid\":{\"t\":{\"g\":\"uint16\"},\"oe\":false},\"version\":{\"t\":{\"g\":\"uint16\"},\"oe\":false}},\"g\":\"struct\"},\"oe\":false},\"title\":{\"t\":{\"g\":\"string\"},\"oe\":false}},\"g\":\"struct\"},\"oe\":false},\"title\":{\"t\":{\"g\":\"uint32\"},\"oe\":true},\"uid\":{\"t\":{\"g\":\"string\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 string  `json:"b"`
			F1 *string `json:"c,omitempty"`
		}]("{\"f\":{\"b\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:%e9;\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"c\":{\"p\":\"o\",\"t\":{\"k\":\"e\",\"s\":[\"s:b\",\"s:%22;q%22;\"]}}},\"k\":\"st\"}", "{\"f\":{\"b\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"c\":{\"t\":{\"e\":{\"g\":\"string\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"}"),
		static[struct {
			F0 int64 `json:"joinSchema"`
			F1 struct {
				F0 string `json:"b"`
				F1 int32  `json:"c"`
				F2 bool   `json:"d,omitempty"`
			} `json:"steps"`
		}]("{\"f\":{\"joinSchema\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"n:128\",\"n:4294967295\"]}},\"steps\":{\"p\":\"r\",\"t\":{\"f\":{\"b\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:bb\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"c\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"i16\"}},\"d\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}},\"k\":\"st\"}}},\"k\":\"st\"}", "{\"f\":{\"joinSchema\":{\"t\":{\"g\":\"int64\"},\"oe\":false},\"steps\":{\"t\":{\"f\":{\"b\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"c\":{\"t\":{\"g\":\"int32\"},\"oe\":false},\"d\":{\"t\":{\"g\":\"bool\"},\"oe\":true}},\"g\":\"struct\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 *int64 `json:"spec,omitempty"`
			F1 *struct {
				F0 string `json:"b"`
				F1 int32  `json:"c"`
				F2 *bool  `json:"d,omitempty"`
			} `json:"title,omitempty"`
		}]("{\"f\":{\"spec\":{\"p\":\"o\",\"t\":{\"k\":\"e\",\"s\":[\"n:11\",\"n:10\"]}},\"title\":{\"p\":\"o\",\"t\":{\"f\":{\"b\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:bb\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"c\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"i16\"}},\"d\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}},\"k\":\"st\"}}},\"k\":\"st\"}", "{\"f\":{\"spec\":{\"t\":{\"e\":{\"g\":\"int64\"},\"g\":\"ptr\"},\"oe\":true},\"title\":{\"t\":{\"e\":{\"f\":{\"b\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"c\":{\"t\":{\"g\":\"int32\"},\"oe\":false},\"d\":{\"t\":{\"e\":{\"g\":\"bool\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"}"),
		static[struct {
			F0 *struct {
				F0 string `json:"bar"`
				F1 struct {
					F0 struct {
						F0 string `json:"b"`
						F1 int32  `json:"c"`
						F2 bool   `json:"d,omitempty"`
					} `json:"dot.ted"`
					F1 *[]string `json:"joinSchema,omitempty"`
					F2 int64     `json:"x1,omitempty"`
				} `json:"d"`
				F2 int64 `json:"ee"`
			} `json:"ee,omitempty"`
			F1 int64 `json:"foo,omitempty"`
			F2 struct {
				F0 string  `json:"bar"`
				F1 *string `json:"meta,omitempty"`
				F2 *struct {
					F0 string `json:"b"`
					F1 int32  `json:"c"`
					F2 *bool  `json:"d,omitempty"`
				} `json:"title,omitempty"`
			} `json:"meta"`
			F3 string `json:"title"`
			F4 int64  `json:"x1"`
		}]("{\"f\":{\"ee\":{\"p\":\"o\",\"t\":{\"f\":{\"bar\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:1\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"d\":{\"p\":\"r\",\"t\":{\"f\":{\"dot.ted\":{\"p\":\"r\",\"t\":{\"f\":{\"b\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:bb\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"c\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"i16\"}},\"d\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}},\"k\":\"st\"}},\"joinSchema\":{\"p\":\"o\",\"t\":{\"e\":{\"k\":\"e\",\"s\":[\"s:\\u003c\\u0026\\u003e\",\"s:*\"]},\"k\":\"ol\"}},\"x1\":{\"p\":\"o\",\"t\":{\"k\":\"e\",\"s\":[\"n:-200\",\"n:70000\",\"n:300\"]}}},\"k\":\"st\"}},\"ee\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"i32\"}}},\"k\":\"st\"}},\"foo\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"i32\"}},\"meta\":{\"p\":\"r\",\"t\":{\"f\":{\"bar\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:%22;q%22;\"},\"k\":\"df\",\"t\":{\"k\":\"e\",\"s\":[\"s:%22;q%22;\",\"s:b\"]}}},\"meta\":{\"p\":\"o\",\"t\":{\"k\":\"e\",\"s\":[\"s:%22;q%22;\",\"s:line%a;break\",\"s:x\"]}},\"title\":{\"p\":\"o\",\"t\":{\"f\":{\"b\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:bb\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"c\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"i16\"}},\"d\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}},\"k\":\"st\"}}},\"k\":\"st\"}},\"title\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:true\"]}},\"x1\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"n:65536\",\"n:2147483647\"]}}},\"k\":\"st\"}", "{\"f\":{\"ee\":{\"t\":{\"e\":{\"f\":{\"bar\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"d\":{\"t\":{\"f\":{\"dot.ted\":{\"t\":{\"f\":{\"b\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"c\":{\"t\":{\"g\":\"int32\"},\"oe\":false},\"d\":{\"t\":{\"g\":\"bool\"},\"oe\":true}},\"g\":\"struct\"},\"oe\":false},\"joinSchema\":{\"t\":{\"e\":{\"e\":{\"g\":\"string\"},\"g\":\"slice\"},\"g\":\"ptr\"},\"oe\":true},\"x1\":{\"t\":{\"g\":\"int64\"},\"oe\":true}},\"g\":\"struct\"},\"oe\":false},\"ee\":{\"t\":{\"g\":\"int64\"},\"oe\":false}},\"g\":\"struct\"},\"g\":\"ptr\"},\"oe\":true},\"foo\":{\"t\":{\"g\":\"int64\"},\"oe\":true},\"meta\":{\"t\":{\"f\":{\"bar\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"meta\":{\"t\":{\"e\":{\"g\":\"string\"},\"g\":\"ptr\"},\"oe\":true},\"title\":{\"t\":{\"e\":{\"f\":{\"b\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"c\":{\"t\":{\"g\":\"int32\"},\"oe\":false},\"d\":{\"t\":{\"e\":{\"g\":\"bool\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"},\"oe\":false},\"title\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"x1\":{\"t\":{\"g\":\"int64\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 struct {
				F0 *uint64 `json:"b,omitempty"`
				F1 string  `json:"bar"`
				F2 int64   `json:"c"`
				F3 *string `json:"foo,omitempty"`
				F4 string  `json:"meta"`
			} `json:"a"`
			F1 struct {
				F0 bool   `json:"b"`
				F1 uint16 `json:"ee"`
				F2 string `json:"foo"`
				F3 *int16 `json:"spec,omitempty"`
				F4 uint16 `json:"to"`
			} `json:"uid"`
		}]("{\"f\":{\"a\":{\"p\":\"r\",\"t\":{\"f\":{\"b\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"u32\"}},\"bar\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:%e9;\",\"s:%22;q%22;\",\"s:a\",\"s:\"]}},\"c\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"i32\"}},\"foo\":{\"p\":\"o\",\"t\":{\"dv\":{\"a\":\"s:null\"},\"k\":\"df\",\"t\":{\"k\":\"e\",\"s\":[\"s:b\",\"s:\",\"s:null\",\"s:\\u003c\\u0026\\u003e\"]}}},\"meta\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"k\":\"st\"}},\"uid\":{\"p\":\"r\",\"t\":{\"f\":{\"b\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}},\"ee\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"u8\"}},\"foo\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:%22;q%22;\"},\"k\":\"df\",\"t\":{\"k\":\"e\",\"s\":[\"s:%22;q%22;\",\"s:b\",\"s:null\",\"s:a\"]}}},\"spec\":{\"p\":\"o\",\"t\":{\"dv\":{\"a\":\"n:5\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"i8\"}}},\"to\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"n:10\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"u8\"}}}},\"k\":\"st\"}}},\"k\":\"st\"}", "{\"f\":{\"a\":{\"t\":{\"f\":{\"b\":{\"t\":{\"e\":{\"g\":\"uint64\"},\"g\":\"ptr\"},\"oe\":true},\"bar\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"c\":{\"t\":{\"g\":\"int64\"},\"oe\":false},\"foo\":{\"t\":{\"e\":{\"g\":\"string\"},\"g\":\"ptr\"},\"oe\":true},\"meta\":{\"t\":{\"g\":\"string\"},\"oe\":false}},\"g\":\"struct\"},\"oe\":false},\"uid\":{\"t\":{\"f\":{\"b\":{\"t\":{\"g\":\"bool\"},\"oe\":false},\"ee\":{\"t\":{\"g\":\"uint16\"},\"oe\":false},\"foo\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"spec\":{\"t\":{\"e\":{\"g\":\"int16\"},\"g\":\"ptr\"},\"oe\":true},\"to\":{\"t\":{\"g\":\"uint16\"},\"oe\":false}},\"g\":\"struct\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 string `json:"ee"`
		}]("{\"f\":{\"ee\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"k\":\"st\"}", "{\"f\":{\"ee\":{\"t\":{\"g\":\"string\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 string  `json:"ee"`
			F1 *uint32 `json:"lin,omitempty"`
		}]("{\"f\":{\"ee\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"rex\"}},\"lin\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"u16\"}}},\"k\":\"st\"}", "{\"f\":{\"ee\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"lin\":{\"t\":{\"e\":{\"g\":\"uint32\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"}"),
		static[struct {
			F0 string  `json:"foo,omitempty"`
			F1 *uint64 `json:"inst,omitempty"`
			F2 any     `json:"spec"`
			F3 struct {
				F0 string `json:"b"`
				F1 int32  `json:"c"`
				F2 *bool  `json:"d,omitempty"`
			} `json:"with-dash"`
		}]("{\"f\":{\"foo\":{\"p\":\"o\",\"t\":{\"k\":\"e\",\"s\":[\"s:a\",\"s:%22;q%22;\"]}},\"inst\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"u32\"}},\"spec\":{\"p\":\"r\",\"t\":{\"alts\":[{\"f\":{\"c\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"str\"}},\"ee\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"n:1\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"int\"}}},\"k\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:x\"]}}},\"k\":\"st\"},{\"f\":{\"d\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"int\"}},\"k\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:\\u003c\\u0026\\u003e\"]}}},\"k\":\"st\"}],\"k\":\"u\"}},\"with-dash\":{\"p\":\"r\",\"t\":{\"f\":{\"b\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:bb\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"c\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"i16\"}},\"d\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}},\"k\":\"st\"}}},\"k\":\"st\"}", "{\"f\":{\"foo\":{\"t\":{\"g\":\"string\"},\"oe\":true},\"inst\":{\"t\":{\"e\":{\"g\":\"uint64\"},\"g\":\"ptr\"},\"oe\":true},\"spec\":{\"t\":{\"g\":\"any\"},\"oe\":false},\"with-dash\":{\"t\":{\"f\":{\"b\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"c\":{\"t\":{\"g\":\"int32\"},\"oe\":false},\"d\":{\"t\":{\"e\":{\"g\":\"bool\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 string   `json:"a"`
			F1 *int64   `json:"foo,omitempty"`
			F2 string   `json:"meta"`
			F3 []string `json:"spec"`
		}]("{\"f\":{\"a\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:\",\"s:1\",\"s:x: y\",\"s:x\"]}},\"foo\":{\"p\":\"o\",\"t\":{\"k\":\"e\",\"s\":[\"n:32768\",\"n:4294967296\",\"n:9\"]}},\"meta\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"min1\"}},\"spec\":{\"p\":\"r\",\"t\":{\"e\":{\"dv\":{\"a\":\"s:xy\"},\"k\":\"df\",\"t\":{\"k\":\"e\",\"s\":[\"s:xy\",\"s:\\u003c\\u0026\\u003e\",\"s:x: y\"]}},\"k\":\"ol\"}}},\"k\":\"st\"}", "{\"f\":{\"a\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"foo\":{\"t\":{\"e\":{\"g\":\"int64\"},\"g\":\"ptr\"},\"oe\":true},\"meta\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"spec\":{\"t\":{\"e\":{\"g\":\"string\"},\"g\":\"slice\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 string  `json:"a"`
			F1 string  `json:"bar"`
			F2 bool    `json:"ee,omitempty"`
			F3 *string `json:"meta,omitempty"`
		}]("{\"f\":{\"a\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"str\"}},\"bar\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:1\"},\"k\":\"df\",\"t\":{\"k\":\"e\",\"s\":[\"s:two words\",\"s:hello\",\"s:1\",\"s:x\"]}}},\"ee\":{\"p\":\"o\",\"t\":{\"dv\":{\"a\":\"b:false\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}},\"meta\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"k\":\"st\"}", "{\"f\":{\"a\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"bar\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"ee\":{\"t\":{\"g\":\"bool\"},\"oe\":true},\"meta\":{\"t\":{\"e\":{\"g\":\"string\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"}"),
		static[struct {
			F0 *[]uint64 `json:"d,omitempty"`
			F1 string    `json:"foo"`
		}]("{\"f\":{\"d\":{\"p\":\"o\",\"t\":{\"e\":{\"k\":\"b\",\"n\":\"u32\"},\"k\":\"ol\"}},\"foo\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:1\"},\"k\":\"df\",\"t\":{\"k\":\"e\",\"s\":[\"s:1\",\"s:line%a;break\",\"s:*\"]}}}},\"k\":\"st\"}", "{\"f\":{\"d\":{\"t\":{\"e\":{\"e\":{\"g\":\"uint64\"},\"g\":\"slice\"},\"g\":\"ptr\"},\"oe\":true},\"foo\":{\"t\":{\"g\":\"string\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 any     `json:"b,omitempty"`
			F1 *uint16 `json:"ee,omitempty"`
		}]("{\"f\":{\"b\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"ns\"}},\"ee\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"u8\"}}},\"k\":\"st\"}", "{\"f\":{\"b\":{\"t\":{\"g\":\"any\"},\"oe\":true},\"ee\":{\"t\":{\"e\":{\"g\":\"uint16\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"}"),
		static[struct {
			F0 string   `json:"bar"`
			F1 *int64   `json:"ee,omitempty"`
			F2 []string `json:"title"`
		}]("{\"f\":{\"bar\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"rex\"}},\"ee\":{\"p\":\"o\",\"t\":{\"k\":\"e\",\"s\":[\"n:9\",\"n:4294967296\",\"n:5000000000\"]}},\"title\":{\"p\":\"r\",\"t\":{\"e\":{\"k\":\"e\",\"s\":[\"s:two words\",\"s:true\"]},\"k\":\"ol\"}}},\"k\":\"st\"}", "{\"f\":{\"bar\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"ee\":{\"t\":{\"e\":{\"g\":\"int64\"},\"g\":\"ptr\"},\"oe\":true},\"title\":{\"t\":{\"e\":{\"g\":\"string\"},\"g\":\"slice\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 bool `json:"b"`
			F1 *struct {
				F0 *int16 `json:"x1,omitempty"`
			} `json:"ee,omitempty"`
			F2 bool `json:"foo,omitempty"`
		}]("{\"f\":{\"b\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"b:true\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}},\"ee\":{\"p\":\"o\",\"t\":{\"f\":{\"x1\":{\"p\":\"o\",\"t\":{\"dv\":{\"a\":\"n:3\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"i8\"}}}},\"k\":\"st\"}},\"foo\":{\"p\":\"o\",\"t\":{\"dv\":{\"a\":\"b:false\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}}},\"k\":\"st\"}", "{\"f\":{\"b\":{\"t\":{\"g\":\"bool\"},\"oe\":false},\"ee\":{\"t\":{\"e\":{\"f\":{\"x1\":{\"t\":{\"e\":{\"g\":\"int16\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"},\"g\":\"ptr\"},\"oe\":true},\"foo\":{\"t\":{\"g\":\"bool\"},\"oe\":true}},\"g\":\"struct\"}"),
		static[struct {
			F0 struct {
				F0 any `json:"CamelCase,omitempty"`
				F1 struct {
					F0 string `json:"b"`
					F1 int32  `json:"c"`
					F2 *bool  `json:"d,omitempty"`
				} `json:"foo"`
				F2 uint64 `json:"result"`
			} `json:"a"`
			F1 string `json:"bar"`
			F2 *[]struct {
				F0 int64   `json:"d"`
				F1 *string `json:"uid,omitempty"`
			} `json:"ee,omitempty"`
			F3 string `json:"title,omitempty"`
			F4 string `json:"to"`
		}]("{\"f\":{\"a\":{\"p\":\"r\",\"t\":{\"f\":{\"CamelCase\":{\"p\":\"o\",\"t\":{\"alts\":[{\"f\":{\"foo\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"float\"}},\"k\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:line%a;break\"]}}},\"k\":\"st\"},{\"f\":{\"c\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:x\",\"s:*\"]}},\"k\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:\\u003c\\u0026\\u003e\"]}},\"spec\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"k\":\"st\"},{\"f\":{\"a\":{\"p\":\"o\",\"t\":{\"dv\":{\"a\":\"s:line%a;break\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"k\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:null\"]}},\"meta\":{\"p\":\"o\",\"t\":{\"dv\":{\"a\":\"s:a\"},\"k\":\"df\",\"t\":{\"k\":\"e\",\"s\":[\"s:a\",\"s:true\"]}}}},\"k\":\"st\"}],\"k\":\"u\"}},\"foo\":{\"p\":\"r\",\"t\":{\"f\":{\"b\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:bb\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"c\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"i16\"}},\"d\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}},\"k\":\"st\"}},\"result\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"u32\"}}},\"k\":\"st\"}},\"bar\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:b\",\"s:two words\",\"s:null\",\"s:%22;q%22;\"]}},\"ee\":{\"p\":\"o\",\"t\":{\"e\":{\"f\":{\"d\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"n:4\"]}},\"uid\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"k\":\"st\"},\"k\":\"ol\"}},\"title\":{\"p\":\"o\",\"t\":{\"k\":\"e\",\"s\":[\"s:true\",\"s:x: y\",\"s:%e9;\"]}},\"to\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:%22;q%22;\"},\"k\":\"df\",\"t\":{\"k\":\"e\",\"s\":[\"s:%e9;\",\"s:%22;q%22;\"]}}}},\"k\":\"st\"}", "{\"f\":{\"a\":{\"t\":{\"f\":{\"CamelCase\":{\"t\":{\"g\":\"any\"},\"oe\":true},\"foo\":{\"t\":{\"f\":{\"b\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"c\":{\"t\":{\"g\":\"int32\"},\"oe\":false},\"d\":{\"t\":{\"e\":{\"g\":\"bool\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"},\"oe\":false},\"result\":{\"t\":{\"g\":\"uint64\"},\"oe\":false}},\"g\":\"struct\"},\"oe\":false},\"bar\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"ee\":{\"t\":{\"e\":{\"e\":{\"f\":{\"d\":{\"t\":{\"g\":\"int64\"},\"oe\":false},\"uid\":{\"t\":{\"e\":{\"g\":\"string\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"},\"g\":\"slice\"},\"g\":\"ptr\"},\"oe\":true},\"title\":{\"t\":{\"g\":\"string\"},\"oe\":true},\"to\":{\"t\":{\"g\":\"string\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 string `json:"bar"`
		}]("{\"f\":{\"bar\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:1\"},\"k\":\"df\",\"t\":{\"k\":\"e\",\"s\":[\"s:1\",\"s:b\",\"s:%22;q%22;\"]}}}},\"k\":\"st\"}", "{\"f\":{\"bar\":{\"t\":{\"g\":\"string\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 string `json:"x1"`
		}]("{\"f\":{\"x1\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:\\u003c\\u0026\\u003e\"},\"k\":\"df\",\"t\":{\"k\":\"e\",\"s\":[\"s:\\u003c\\u0026\\u003e\",\"s:two words\"]}}}},\"k\":\"st\"}", "{\"f\":{\"x1\":{\"t\":{\"g\":\"string\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 any `json:"b"`
			F1 *struct {
				F0 int64   `json:"a"`
				F1 string  `json:"c"`
				F2 *string `json:"meta,omitempty"`
			} `json:"c,omitempty"`
		}]("{\"f\":{\"b\":{\"p\":\"r\",\"t\":{\"es\":[{\"dv\":{\"a\":\"n:11\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"int\"}},{\"k\":\"b\",\"n\":\"float\"}],\"k\":\"cl\"}},\"c\":{\"p\":\"o\",\"t\":{\"f\":{\"a\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"n:128\",\"n:256\",\"n:65535\"]}},\"c\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:x: y\"},\"k\":\"df\",\"t\":{\"k\":\"e\",\"s\":[\"s:x: y\",\"s:\",\"s:true\",\"s:line%a;break\"]}}},\"meta\":{\"p\":\"o\",\"t\":{\"k\":\"e\",\"s\":[\"s:\\u003c\\u0026\\u003e\",\"s:x: y\",\"s:line%a;break\"]}}},\"k\":\"st\"}}},\"k\":\"st\"}", "{\"f\":{\"b\":{\"t\":{\"g\":\"any\"},\"oe\":false},\"c\":{\"t\":{\"e\":{\"f\":{\"a\":{\"t\":{\"g\":\"int64\"},\"oe\":false},\"c\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"meta\":{\"t\":{\"e\":{\"g\":\"string\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"}"),
		static[struct {
			F0 struct {
				F0 *uint16 `json:"bar,omitempty"`
				F1 struct {
					F0 *int16 `json:"spec,omitempty"`
				} `json:"x1"`
			} `json:"ee"`
			F1 struct {
				F0 struct {
					F0 string `json:"b"`
					F1 int32  `json:"c"`
					F2 *bool  `json:"d,omitempty"`
				} `json:"lenses"`
			} `json:"title"`
			F2 any `json:"x1"`
		}]("{\"f\":{\"ee\":{\"p\":\"r\",\"t\":{\"f\":{\"bar\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"u8\"}},\"x1\":{\"p\":\"r\",\"t\":{\"f\":{\"spec\":{\"p\":\"o\",\"t\":{\"dv\":{\"a\":\"n:2\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"i8\"}}}},\"k\":\"st\"}}},\"k\":\"st\"}},\"title\":{\"p\":\"r\",\"t\":{\"f\":{\"lenses\":{\"p\":\"r\",\"t\":{\"f\":{\"b\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:bb\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"c\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"i16\"}},\"d\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}},\"k\":\"st\"}}},\"k\":\"st\"}},\"x1\":{\"p\":\"r\",\"t\":{\"e\":{\"k\":\"b\",\"n\":\"i16\"},\"k\":\"mp\"}}},\"k\":\"st\"}", "{\"f\":{\"ee\":{\"t\":{\"f\":{\"bar\":{\"t\":{\"e\":{\"g\":\"uint16\"},\"g\":\"ptr\"},\"oe\":true},\"x1\":{\"t\":{\"f\":{\"spec\":{\"t\":{\"e\":{\"g\":\"int16\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"},\"oe\":false}},\"g\":\"struct\"},\"oe\":false},\"title\":{\"t\":{\"f\":{\"lenses\":{\"t\":{\"f\":{\"b\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"c\":{\"t\":{\"g\":\"int32\"},\"oe\":false},\"d\":{\"t\":{\"e\":{\"g\":\"bool\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"},\"oe\":false}},\"g\":\"struct\"},\"oe\":false},\"x1\":{\"t\":{\"g\":\"any\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 string `json:"c"`
			F1 string `json:"foo,omitempty"`
			F2 *struct {
				F0 string `json:"b,omitempty"`
				F1 bool   `json:"ee"`
				F2 any    `json:"spec"`
				F3 string `json:"uid"`
			} `json:"meta,omitempty"`
		}]("{\"f\":{\"c\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:null\"},\"k\":\"df\",\"t\":{\"k\":\"e\",\"s\":[\"s:b\",\"s:null\",\"s:%22;q%22;\"]}}},\"foo\":{\"p\":\"o\",\"t\":{\"dv\":{\"a\":\"s:a\"},\"k\":\"df\",\"t\":{\"k\":\"e\",\"s\":[\"s:a\",\"s:null\"]}}},\"meta\":{\"p\":\"o\",\"t\":{\"f\":{\"b\":{\"p\":\"o\",\"t\":{\"dv\":{\"a\":\"s:*\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"ee\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"b:true\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}},\"spec\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"n:255\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"int\"}}},\"uid\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:_|_\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}}},\"k\":\"st\"}}},\"k\":\"st\"}", "{\"f\":{\"c\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"foo\":{\"t\":{\"g\":\"string\"},\"oe\":true},\"meta\":{\"t\":{\"e\":{\"f\":{\"b\":{\"t\":{\"g\":\"string\"},\"oe\":true},\"ee\":{\"t\":{\"g\":\"bool\"},\"oe\":false},\"spec\":{\"t\":{\"g\":\"any\"},\"oe\":false},\"uid\":{\"t\":{\"g\":\"string\"},\"oe\":false}},\"g\":\"struct\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"}"),
		static[struct {
			F0 *struct {
				F0 string `json:"b"`
				F1 string `json:"ee"`
			} `json:"x1,omitempty"`
		}]("{\"f\":{\"x1\":{\"p\":\"o\",\"t\":{\"f\":{\"b\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"rex\"}},\"ee\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:c\"]}}},\"k\":\"st\"}}},\"k\":\"st\"}", "{\"f\":{\"x1\":{\"t\":{\"e\":{\"f\":{\"b\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"ee\":{\"t\":{\"g\":\"string\"},\"oe\":false}},\"g\":\"struct\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"}"),
		static[struct {
			F0 struct {
				F0 uint32 `json:"a"`
				F1 string `json:"inst"`
				F2 struct {
					F0 *string `json:"0,omitempty"`
					F1 *struct {
						F0 string `json:"steps"`
						F1 string `json:"x1"`
					} `json:"bar,omitempty"`
					F2 []uint64 `json:"steps"`
				} `json:"spec"`
			} `json:"ee"`
		}]("{\"f\":{\"ee\":{\"p\":\"r\",\"t\":{\"f\":{\"a\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"u16\"}},\"inst\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"str\"}},\"spec\":{\"p\":\"r\",\"t\":{\"f\":{\"0\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"str\"}},\"bar\":{\"p\":\"o\",\"t\":{\"f\":{\"steps\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:null\"]}},\"x1\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:%e9;\",\"s:true\",\"s:xy\"]}}},\"k\":\"st\"}},\"steps\":{\"p\":\"r\",\"t\":{\"e\":{\"k\":\"b\",\"n\":\"u32\"},\"k\":\"ol\"}}},\"k\":\"st\"}}},\"k\":\"st\"}}},\"k\":\"st\"}", "{\"f\":{\"ee\":{\"t\":{\"f\":{\"a\":{\"t\":{\"g\":\"uint32\"},\"oe\":false},\"inst\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"spec\":{\"t\":{\"f\":{\"0\":{\"t\":{\"e\":{\"g\":\"string\"},\"g\":\"ptr\"},\"oe\":true},\"bar\":{\"t\":{\"e\":{\"f\":{\"steps\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"x1\":{\"t\":{\"g\":\"string\"},\"oe\":false}},\"g\":\"struct\"},\"g\":\"ptr\"},\"oe\":true},\"steps\":{\"t\":{\"e\":{\"g\":\"uint64\"},\"g\":\"slice\"},\"oe\":false}},\"g\":\"struct\"},\"oe\":false}},\"g\":\"struct\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 struct {
				F0 bool   `json:"b"`
				F1 string `json:"c"`
			} `json:"b"`
			F1 struct {
				F0 string `json:"foo"`
				F1 string `json:"spec"`
				F2 bool   `json:"title"`
				F3 uint32 `json:"x1"`
			} `json:"ee"`
			F2 string `json:"for,omitempty"`
			F3 string `json:"meta"`
			F4 *struct {
				F0 int64 `json:"foo"`
			} `json:"uid,omitempty"`
		}]("{\"f\":{\"b\":{\"p\":\"r\",\"t\":{\"f\":{\"b\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"b:false\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}},\"c\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:a\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}}},\"k\":\"st\"}},\"ee\":{\"p\":\"r\",\"t\":{\"f\":{\"foo\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:line%a;break\"},\"k\":\"df\",\"t\":{\"k\":\"e\",\"s\":[\"s:null\",\"s:line%a;break\",\"s:%22;q%22;\",\"s:x\"]}}},\"spec\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:%e9;\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"title\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"b:true\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}},\"x1\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"n:3\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"u16\"}}}},\"k\":\"st\"}},\"for\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"str\"}},\"meta\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:line%a;break\",\"s:_|_\",\"s:x\",\"s:*\"]}},\"uid\":{\"p\":\"o\",\"t\":{\"f\":{\"foo\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"n:5\",\"n:-129\",\"n:32767\"]}}},\"k\":\"st\"}}},\"k\":\"st\"}", "{\"f\":{\"b\":{\"t\":{\"f\":{\"b\":{\"t\":{\"g\":\"bool\"},\"oe\":false},\"c\":{\"t\":{\"g\":\"string\"},\"oe\":false}},\"g\":\"struct\"},\"oe\":false},\"ee\":{\"t\":{\"f\":{\"foo\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"spec\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"title\":{\"t\":{\"g\":\"bool\"},\"oe\":false},\"x1\":{\"t\":{\"g\":\"uint32\"},\"oe\":false}},\"g\":\"struct\"},\"oe\":false},\"for\":{\"t\":{\"g\":\"string\"},\"oe\":true},\"meta\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"uid\":{\"t\":{\"e\":{\"f\":{\"foo\":{\"t\":{\"g\":\"int64\"},\"oe\":false}},\"g\":\"struct\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"}"),
		static[struct {
			F0 string `json:"a"`
			F1 int64  `json:"foo"`
		}]("{\"f\":{\"a\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"str\"}},\"foo\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"n:5\",\"n:256\",\"n:1\"]}}},\"k\":\"st\"}", "{\"f\":{\"a\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"foo\":{\"t\":{\"g\":\"int64\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 uint32 `json:"0,omitempty"`
			F1 string `json:"a"`
			F2 string `json:"foo"`
			F3 struct {
				F0 *string `json:"bar,omitempty"`
				F1 *string `json:"for,omitempty"`
				F2 int32   `json:"joinSchema"`
			} `json:"joinSchema"`
		}]("{\"f\":{\"0\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"u16\"}},\"a\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"str\"}},\"foo\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:hello\",\"s:_|_\",\"s:%e9;\"]}},\"joinSchema\":{\"p\":\"r\",\"t\":{\"f\":{\"bar\":{\"p\":\"o\",\"t\":{\"dv\":{\"a\":\"s:1\"},\"k\":\"df\",\"t\":{\"k\":\"e\",\"s\":[\"s:x: y\",\"s:1\",\"s:x\",\"s:\"]}}},\"for\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"str\"}},\"joinSchema\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"i16\"}}},\"k\":\"st\"}}},\"k\":\"st\"}", "{\"f\":{\"0\":{\"t\":{\"g\":\"uint32\"},\"oe\":true},\"a\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"foo\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"joinSchema\":{\"t\":{\"f\":{\"bar\":{\"t\":{\"e\":{\"g\":\"string\"},\"g\":\"ptr\"},\"oe\":true},\"for\":{\"t\":{\"e\":{\"g\":\"string\"},\"g\":\"ptr\"},\"oe\":true},\"joinSchema\":{\"t\":{\"g\":\"int32\"},\"oe\":false}},\"g\":\"struct\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 bool `json:"ee,omitempty"`
		}]("{\"f\":{\"ee\":{\"p\":\"o\",\"t\":{\"dv\":{\"a\":\"b:true\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}}},\"k\":\"st\"}", "{\"f\":{\"ee\":{\"t\":{\"g\":\"bool\"},\"oe\":true}},\"g\":\"struct\"}"),
		static[struct {
			F0 string `json:"foo"`
			F1 string `json:"spec"`
		}]("{\"f\":{\"foo\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:two words\",\"s:line%a;break\",\"s:b\",\"s:\\u003c\\u0026\\u003e\"]}},\"spec\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"k\":\"st\"}", "{\"f\":{\"foo\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"spec\":{\"t\":{\"g\":\"string\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 string `json:"b"`
		}]("{\"f\":{\"b\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"k\":\"st\"}", "{\"f\":{\"b\":{\"t\":{\"g\":\"string\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 []any     `json:"a"`
			F1 *int64    `json:"c,omitempty"`
			F2 *[]uint64 `json:"foo,omitempty"`
			F3 *struct {
				F0 *string `json:"x1,omitempty"`
			} `json:"result,omitempty"`
		}]("{\"f\":{\"a\":{\"p\":\"r\",\"t\":{\"e\":{\"k\":\"b\",\"n\":\"float\"},\"k\":\"ol\"}},\"c\":{\"p\":\"o\",\"t\":{\"k\":\"e\",\"s\":[\"n:32767\",\"n:10\",\"n:2\"]}},\"foo\":{\"p\":\"o\",\"t\":{\"e\":{\"dv\":{\"a\":\"n:4\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"u32\"}},\"k\":\"ol\"}},\"result\":{\"p\":\"o\",\"t\":{\"f\":{\"x1\":{\"p\":\"o\",\"t\":{\"dv\":{\"a\":\"s:*\"},\"k\":\"df\",\"t\":{\"k\":\"e\",\"s\":[\"s:1\",\"s:\\u003c\\u0026\\u003e\",\"s:*\"]}}}},\"k\":\"st\"}}},\"k\":\"st\"}", "{\"f\":{\"a\":{\"t\":{\"e\":{\"g\":\"any\"},\"g\":\"slice\"},\"oe\":false},\"c\":{\"t\":{\"e\":{\"g\":\"int64\"},\"g\":\"ptr\"},\"oe\":true},\"foo\":{\"t\":{\"e\":{\"e\":{\"g\":\"uint64\"},\"g\":\"slice\"},\"g\":\"ptr\"},\"oe\":true},\"result\":{\"t\":{\"e\":{\"f\":{\"x1\":{\"t\":{\"e\":{\"g\":\"string\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"}"),
		static[struct {
			F0 *string `json:"a,omitempty"`
			F1 []struct {
				F0 string `json:"foo"`
			} `json:"uid"`
		}]("{\"f\":{\"a\":{\"p\":\"o\",\"t\":{\"k\":\"e\",\"s\":[\"s:_|_\",\"s:1\",\"s:\"]}},\"uid\":{\"p\":\"r\",\"t\":{\"e\":{\"f\":{\"foo\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:c\"},\"k\":\"df\",\"t\":{\"k\":\"e\",\"s\":[\"s:%e9;\",\"s:a\",\"s:c\"]}}}},\"k\":\"st\"},\"k\":\"ol\"}}},\"k\":\"st\"}", "{\"f\":{\"a\":{\"t\":{\"e\":{\"g\":\"string\"},\"g\":\"ptr\"},\"oe\":true},\"uid\":{\"t\":{\"e\":{\"f\":{\"foo\":{\"t\":{\"g\":\"string\"},\"oe\":false}},\"g\":\"struct\"},\"g\":\"slice\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 uint32 `json:"meta"`
			F1 uint64 `json:"title"`
			F2 struct {
				F0 string `json:"ee"`
				F1 *bool  `json:"x1,omitempty"`
			} `json:"x1"`
		}]("{\"f\":{\"meta\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"n:255\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"u16\"}}},\"title\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"u32\"}},\"x1\":{\"p\":\"r\",\"t\":{\"f\":{\"ee\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:x: y\",\"s:_|_\"]}},\"x1\":{\"p\":\"o\",\"t\":{\"dv\":{\"a\":\"b:true\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}}},\"k\":\"st\"}}},\"k\":\"st\"}", "{\"f\":{\"meta\":{\"t\":{\"g\":\"uint32\"},\"oe\":false},\"title\":{\"t\":{\"g\":\"uint64\"},\"oe\":false},\"x1\":{\"t\":{\"f\":{\"ee\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"x1\":{\"t\":{\"e\":{\"g\":\"bool\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 bool   `json:"a"`
			F1 string `json:"uid"`
		}]("{\"f\":{\"a\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}},\"uid\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:true\"},\"k\":\"df\",\"t\":{\"k\":\"e\",\"s\":[\"s:true\",\"s:\\u003c\\u0026\\u003e\",\"s:\",\"s:hello\"]}}}},\"k\":\"st\"}", "{\"f\":{\"a\":{\"t\":{\"g\":\"bool\"},\"oe\":false},\"uid\":{\"t\":{\"g\":\"string\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 int64   `json:"ee"`
			F1 *uint64 `json:"foo,omitempty"`
			F2 string  `json:"spec,omitempty"`
			F3 string  `json:"uid"`
		}]("{\"f\":{\"ee\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"n:10\",\"n:70000\"]}},\"foo\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"u32\"}},\"spec\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"str\"}},\"uid\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:%22;q%22;\"]}}},\"k\":\"st\"}", "{\"f\":{\"ee\":{\"t\":{\"g\":\"int64\"},\"oe\":false},\"foo\":{\"t\":{\"e\":{\"g\":\"uint64\"},\"g\":\"ptr\"},\"oe\":true},\"spec\":{\"t\":{\"g\":\"string\"},\"oe\":true},\"uid\":{\"t\":{\"g\":\"string\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 *string `json:"b,omitempty"`
			F1 string  `json:"c"`
			F2 uint16  `json:"ee"`
			F3 *int64  `json:"foo,omitempty"`
			F4 *int64  `json:"title,omitempty"`
		}]("{\"f\":{\"b\":{\"p\":\"o\",\"t\":{\"dv\":{\"a\":\"s:*\"},\"k\":\"df\",\"t\":{\"k\":\"e\",\"s\":[\"s:*\",\"s:two words\"]}}},\"c\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"str\"}},\"ee\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"u8\"}},\"foo\":{\"p\":\"o\",\"t\":{\"k\":\"e\",\"s\":[\"n:65535\",\"n:128\"]}},\"title\":{\"p\":\"o\",\"t\":{\"k\":\"e\",\"s\":[\"n:1\",\"n:-128\"]}}},\"k\":\"st\"}", "{\"f\":{\"b\":{\"t\":{\"e\":{\"g\":\"string\"},\"g\":\"ptr\"},\"oe\":true},\"c\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"ee\":{\"t\":{\"g\":\"uint16\"},\"oe\":false},\"foo\":{\"t\":{\"e\":{\"g\":\"int64\"},\"g\":\"ptr\"},\"oe\":true},\"title\":{\"t\":{\"e\":{\"g\":\"int64\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"}"),
		static[struct {
			F0 uint64 `json:"foo"`
		}]("{\"f\":{\"foo\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"u32\"}}},\"k\":\"st\"}", "{\"f\":{\"foo\":{\"t\":{\"g\":\"uint64\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 *string `json:"foo,omitempty"`
			F1 struct {
				F0 string `json:"b"`
				F1 int32  `json:"c"`
				F2 *bool  `json:"d,omitempty"`
			} `json:"title"`
			F2 string `json:"to,omitempty"`
		}]("{\"f\":{\"foo\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"str\"}},\"title\":{\"p\":\"r\",\"t\":{\"f\":{\"b\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"s:bb\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"str\"}}},\"c\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"i16\"}},\"d\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}},\"k\":\"st\"}},\"to\":{\"p\":\"o\",\"t\":{\"dv\":{\"a\":\"s:x\"},\"k\":\"df\",\"t\":{\"k\":\"e\",\"s\":[\"s:%22;q%22;\",\"s:line%a;break\",\"s:x: y\",\"s:x\"]}}}},\"k\":\"st\"}", "{\"f\":{\"foo\":{\"t\":{\"e\":{\"g\":\"string\"},\"g\":\"ptr\"},\"oe\":true},\"title\":{\"t\":{\"f\":{\"b\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"c\":{\"t\":{\"g\":\"int32\"},\"oe\":false},\"d\":{\"t\":{\"e\":{\"g\":\"bool\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"},\"oe\":false},\"to\":{\"t\":{\"g\":\"string\"},\"oe\":true}},\"g\":\"struct\"}"),
		static[struct {
			F0 string `json:"c"`
			F1 *int64 `json:"spec,omitempty"`
		}]("{\"f\":{\"c\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:null\",\"s:a\",\"s:xy\"]}},\"spec\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"i32\"}}},\"k\":\"st\"}", "{\"f\":{\"c\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"spec\":{\"t\":{\"e\":{\"g\":\"int64\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"}"),
		static[struct {
			F0 bool `json:"d"`
			F1 struct {
				F0 *string `json:"a,omitempty"`
			} `json:"foo"`
		}]("{\"f\":{\"d\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"b:true\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"bool\"}}},\"foo\":{\"p\":\"r\",\"t\":{\"f\":{\"a\":{\"p\":\"o\",\"t\":{\"dv\":{\"a\":\"s:\\u003c\\u0026\\u003e\"},\"k\":\"df\",\"t\":{\"k\":\"e\",\"s\":[\"s:\\u003c\\u0026\\u003e\",\"s:*\",\"s:x: y\",\"s:c\"]}}}},\"k\":\"st\"}}},\"k\":\"st\"}", "{\"f\":{\"d\":{\"t\":{\"g\":\"bool\"},\"oe\":false},\"foo\":{\"t\":{\"f\":{\"a\":{\"t\":{\"e\":{\"g\":\"string\"},\"g\":\"ptr\"},\"oe\":true}},\"g\":\"struct\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 *int16 `json:"a,omitempty"`
			F1 int64  `json:"d,omitempty"`
			F2 *int64 `json:"foo,omitempty"`
			F3 int64  `json:"spec"`
		}]("{\"f\":{\"a\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"i8\"}},\"d\":{\"p\":\"o\",\"t\":{\"k\":\"e\",\"s\":[\"n:300\",\"n:255\",\"n:32768\"]}},\"foo\":{\"p\":\"o\",\"t\":{\"k\":\"e\",\"s\":[\"n:300\"]}},\"spec\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"n:7\"]}}},\"k\":\"st\"}", "{\"f\":{\"a\":{\"t\":{\"e\":{\"g\":\"int16\"},\"g\":\"ptr\"},\"oe\":true},\"d\":{\"t\":{\"g\":\"int64\"},\"oe\":true},\"foo\":{\"t\":{\"e\":{\"g\":\"int64\"},\"g\":\"ptr\"},\"oe\":true},\"spec\":{\"t\":{\"g\":\"int64\"},\"oe\":false}},\"g\":\"struct\"}"),
		static[struct {
			F0 string `json:"bar"`
			F1 int64  `json:"ee"`
			F2 string `json:"joinSchema,omitempty"`
			F3 string `json:"meta"`
			F4 string `json:"title"`
		}]("{\"f\":{\"bar\":{\"p\":\"r\",\"t\":{\"k\":\"e\",\"s\":[\"s:null\",\"s:x\"]}},\"ee\":{\"p\":\"r\",\"t\":{\"dv\":{\"a\":\"n:-1\"},\"k\":\"df\",\"t\":{\"k\":\"b\",\"n\":\"i32\"}}},\"joinSchema\":{\"p\":\"o\",\"t\":{\"k\":\"b\",\"n\":\"str\"}},\"meta\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"str\"}},\"title\":{\"p\":\"r\",\"t\":{\"k\":\"b\",\"n\":\"rex\"}}},\"k\":\"st\"}", "{\"f\":{\"bar\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"ee\":{\"t\":{\"g\":\"int64\"},\"oe\":false},\"joinSchema\":{\"t\":{\"g\":\"string\"},\"oe\":true},\"meta\":{\"t\":{\"g\":\"string\"},\"oe\":false},\"title\":{\"t\":{\"g\":\"string\"},\"oe\":false}},\"g\":\"struct\"}"),
	}
}
