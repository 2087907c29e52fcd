package main

// Made by seq -prop DUMP: bodies of every message type, by the reference encoder.
var sampleBodies = []struct {
	ID   uint16
	Body string
}{
	{0x0001, "0102010201"},
	{0x0001, "ffff800180"},
	{0x0001, "01027e7d00"},
	{0x0002, ""},
	{0x0003, ""},
	{0x0100, "010201024131000000413100000000000000000000000000000000000041310000000000014131"},
	{0x0100, "ffff8001f0a082877141310000000000000000000000000000000000000000000000000000bea9d4c1d5e3bdf2"},
	{0x0100, "01027e7d4162332d78e4baace7b2a47171000000000000000000000000e4baace6b4a571804131"},
	{0x0102, "4131"},
	{0x0102, "bea9d4c1d5e3bdf2"},
	{0x0104, "0102020000000000010101010100"},
	{0x0104, "ffff04000000040401080f160101010505000000000002020206000303030701ff"},
	{0x0104, "01020100000002027e7d"},
	{0x0107, "01024131000000413100000000000000000000000000000000000041310000000000000000000123456789120241310241310101"},
	{0x0107, "010200000000004162332d78597a39307e20214162332d78597a39e4baace7b2a4719090909090909090909005f0a08287710241317e00"},
	{0x0107, "010200000000004162332d78597a39307e20214162332d78597a39e4baace7b2a4710000000001234567891205f0a08287710241317e00"},
	{0x0108, "0101"},
	{0x0108, "ff7d"},
	{0x0108, "017e"},
	{0x0200, "01020304010203000160bcc90160bcc9010201020102210304050607"},
	{0x0200, "ffffffff800000050000000000000001ffff800100ff21030405060725045a5b5c56"},
	{0x0200, "010203047e7d7c73ffffffff0708897f01027e7d00002002291020301105725b5c5d5e1206ff0001020361"},
	{0x0201, "010201020304010203000160bcc90160bcc9010201020102210304050607"},
	{0x0201, "ffff8000000100ff00f300000001055d4a80800100ff01020001010000000104ffc8010211010013075aa65c5d5e5f602a029500010400010284"},
	{0x0201, "01027e7d7c7b000000000708897f0160bcc97e7d0000ffff0909090909091206ff00010203e42504000102d301045ac25c5d1105ffb1010203130700a002030405062a028f5b0104ff007e0211010013075a5b5c5d5e5f602a02ff4b02023a0111055a5b5c5d29"},
	{0x0301, "01"},
	{0x0301, "ff"},
	{0x0302, "010201"},
	{0x0302, "ffff7d"},
	{0x0302, "01027e"},
	{0x0303, "0101"},
	{0x0303, "ff7d"},
	{0x0303, "017e"},
	{0x0500, "010201020304010203000160bcc90160bcc9010201020102210304050607"},
	{0x0500, "ffff8000000100ff00f300000001055d4a80800100ff01020001010000000104ffc8010211010013075aa65c5d5e5f602a029500010400010284"},
	{0x0500, "01027e7d7c7b000000000708897f0160bcc97e7d0000ffff0909090909091206ff00010203e42504000102d301045ac25c5d1105ffb1010203130700a002030405062a028f5b0104ff007e0211010013075a5b5c5d5e5f602a02ff4b02023a0111055a5b5c5d29"},
	{0x0700, "010201010203"},
	{0x0700, "01027e00"},
	{0x0701, "01020304010203"},
	{0x0701, "ffffffff0000ff"},
	{0x0701, "01020304"},
	{0x0702, "0121030405060701024131413100000000000000000000000000000000000002413120210304"},
	{0x0702, "ff090909090909800241310000000000000000000000000000000000000000ff4162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e202141623320200229"},
	{0x0702, "010001010000000008bea9d4c1d5e3bdf2bea933bdf259710000000000000000000000000005953290317120210304"},
	{0x0704, "000301001c010203047e7d7c73ffffffff0708897f01027e7d0000200229102030002b7e7d7c7b000000000708897f0160bcc97e7d0000ffff0909090909091105725b5c5d5e1206ff0001020361001c01020304010203000160bcc90160bcc9010201020102210304050607"},
	{0x0704, "0003ff001c00ff00ff0102030c055d4a80ffffffff00ff01027e7d991231235959001c00ff00ff01020300055d4a80ffffffff00ff01027e7d991231235959006500ff00ff0102030c055d4a80ffffffff00ff01027e7d9912312359591206ff00010203e42504000102d301045ac25c5d1105ffb1010203130700a002030405062a028f5b0104ff007e0211010013075a5b5c5d5e5f602a02ff4b02023a0111055a5b5c5d29"},
	{0x0704, "000301001c010203047e7d7c73ffffffff0708897f01027e7d0000200229102030002b7e7d7c7b000000000708897f0160bcc97e7d0000ffff0909090909091105725b5c5d5e1206ff0001020361001c00000000ffffffff0160bcc9000000000000ffff8001101010000059"},
	{0x0705, "000313141506780002030426047298bee40a30260472984b96082c77c20d58000203040002030405060708"},
	{0x0705, "00030000000001260472984b96082c77c20d58260472984b96082c77c20d5870e0500c0002030405060708"},
	{0x0705, "000300000000000002030426047298bee40a30260472984b96082c77c20d584b96082c70e0500c30a01080"},
	{0x0800, "0102030401010101"},
	{0x0800, "ffffffff7d80017e"},
	{0x0800, "010203047e00ff7d"},
	{0x0801, "010203040101010101020304010203000160bcc90160bcc901020102010221030405060701080f"},
	{0x0801, "ffffffff7d80017e00000000fffffffb0160bcc9000000000000ffff800110101000005901080f"},
	{0x0801, "010203047e00ff7d00ff00ff01020300055d4a80ffffffff00ff01027e7d99123123595901080f"},
	{0x0802, "01020003010203047e00ff8000000100ff00f300000001055d4a80800100ff01020001010000007e7d7c7b00ff7d00ff00ff01020300055d4a80ffffffff00ff01027e7d9912312359590102030401010101020304010203000160bcc90160bcc9010201020102210304050607"},
	{0x0802, "ffff000300ff00ff017e00ffffffff800000050000000000000001ffff800100ff21030405060700ff00ff017e00ffffffff800000050000000000000001ffff800100ff2103040506077e7d7c7b00ff7d00ff00ff0102030c055d4a80ffffffff00ff01027e7d991231235959"},
	{0x0802, "01020003010203047e00ff8000000100ff00f300000001055d4a80800100ff01020001010000007e7d7c7b00ff7d00ff00ff01020300055d4a80ffffffff00ff01027e7d9912312359598000000180017e00000000ffffffff0160bcc9000000000000ffff8001101010000059"},
	{0x0805, "0102010003010203040202040601020304"},
	{0x0805, "ffff7d000301020304020204067e7d7c7b"},
	{0x0805, "01027e0003ffffffff02037f7d80000001"},
	{0x0900, "01010203"},
	{0x0900, "ff0000ff"},
	{0x0900, "01"},
	{0x0901, "000000231f8b08000000000000ff000a00f5ff01080f161d242b3239400300625733c90a000000"},
	{0x0901, "0000001b1f8b08000000000000fffa3f0a46010d00600096bf19d258020000"},
	{0x0901, "000000191f8b08000000000000ffaaab1dd110300029477905ff000000"},
	{0x0a00, "000100017e080f161d242b323940474e555c636a71787f868d949ba2a9b0b7bec5ccd3dae1e8eff6fd040b121920272e353c434a51585f666d747b828990979ea5acb3bac1c8cfd6dde4ebf2f900070e151c232a31383f464d545b626970777e858c939aa1a8afb6bdc4cbd2d9e0e7eef5fc030a11181f262d343b424950575e656c737a"},
	{0x8001, "0102010201"},
	{0x8001, "ffff800180"},
	{0x8001, "01027e7d00"},
	{0x8003, "010203010204060102"},
	{0x8003, "ffff0300fffdfa0102"},
	{0x8003, "01020300000406ffff"},
	{0x8100, "0102014131"},
	{0x8100, "ffff7d9532903171"},
	{0x8103, "020000000000010101010100"},
	{0x8103, "030000000303ffffff010101040401080f1602020205050000000000"},
	{0x8103, "00"},
	{0x8104, ""},
	{0x8105, "014131"},
	{0x8105, "ffbea933bdf25971"},
	{0x8105, "01"},
	{0x8106, "03010203040202040601020304"},
	{0x8106, "038000000102037f7d00ff00ff"},
	{0x8106, "037e7d7c7b0202040600000000"},
	{0x8107, ""},
	{0x8108, "01413100000002413101020304010203"},
	{0x8108, "ffe4baac717805953290317101020304"},
	{0x8108, "010000000000ff4162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e2021416233ffffffff0000ff"},
	{0x8201, ""},
	{0x8202, "010201020304"},
	{0x8202, "ffff80000001"},
	{0x8202, "01027e7d7c7b"},
	{0x8203, "010201020304"},
	{0x8203, "ffff80000001"},
	{0x8203, "01027e7d7c7b"},
	{0x8300, "014131"},
	{0x8300, "ffbea933bdf25971"},
	{0x8300, "01"},
	{0x8301, "010301007eff4162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e202141623301024131"},
	{0x8301, "ff0380024131800241317eff4162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e2021416233"},
	{0x8301, "010301007eff4162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162337d059532903171"},
	{0x8302, "0102413101007eff4162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e202141623301024131"},
	{0x8302, "ff07bea933bdf2597101007eff4162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162330008bea9d4c1d5e3bdf2"},
	{0x8302, "0100ff07bea933bdf259717d05953290317180024131"},
	{0x8303, "010300024131000000024131"},
	{0x8303, "ff03000595329031710005953290317100024131"},
	{0x8303, "01030002413100000008bea9d4c1d5e3bdf2"},
	{0x8304, "0100024131"},
	{0x8304, "ff0007bea933bdf25971"},
	{0x8304, "010000"},
	{0x8400, "014131"},
	{0x8400, "ffbea933bdf25971"},
	{0x8400, "01"},
	{0x8401, "ff03800241310080024131000008bea9d4c1d5e3bdf207bea933bdf25971"},
	{0x8401, "01030008bea9d4c1d5e3bdf207bea933bdf259717d0595329031710241318002413100"},
	{0x8401, "ff0380024131007eff4162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e20214162332d78597a39307e202141623308bea9d4c1d5e3bdf20008bea9d4c1d5e3bdf207bea933bdf25971"},
	{0x8500, "01"},
	{0x8500, "ff"},
	{0x8600, "0103010203047e3dffffffff0708897f01020304000101000000991231235959ffff7d7e7d7c7b00000708897f0160bcc97e7d7c7b0102030401020160bcc90160bcc901020304"},
	{0x8600, "ff0300ff00ff01c2055d4a80ffffffff00ff00ff00ff00ff0102055d4a80ffffffff00ff00ff8000000100bf00000001055d4a80800000011010100000592103040506077e7d00"},
	{0x8600, "0103010203047e3dffffffff0708897f01020304000101000000991231235959ffff7d7e7d7c7b00000708897f0160bcc97e7d7c7b7e7d7c7b00000708897f0160bcc97e7d7c7b"},
	{0x8601, "03010203040202040601020304"},
	{0x8601, "038000000102037f7d00ff00ff"},
	{0x8601, "037e7d7c7b0202040600000000"},
	{0x8602, "0103010203047e3dffffffff0708897f0160bcc9000000009912312359592002291020308001807e7d7c7b00000708897f0160bcc900000000000000010102030401020160bcc90160bcc90160bcc90160bcc9"},
	{0x8602, "ff0300ff00ff01c2055d4a80ffffffff0708897f0160bcc900ff00ff0102055d4a80ffffffff0708897f0160bcc900ff00ff01c2055d4a80ffffffff0708897f0160bcc9"},
	{0x8602, "0103010203047e3dffffffff0708897f0160bcc9000000009912312359592002291020308001807e7d7c7b00000708897f0160bcc9000000000000000100000000ffff0160bcc90000000000000001055d4a8009090909090910101000005901027e"},
	{0x8603, "03010203040202040601020304"},
	{0x8603, "038000000102037f7d00ff00ff"},
	{0x8603, "037e7d7c7b0202040600000000"},
	{0x8604, "01020304010200030160bcc90000000000000000000000010160bcc90160bcc9"},
	{0x8604, "ffffffff8001000101000000991231235959ffff7d00030160bcc900000000000000000000000100000001055d4a80"},
	{0x8604, "010203047e3d09090909090910101000005901027e0003055d4a80ffffffff0708897f0160bcc90708897f0160bcc9"},
	{0x8605, "03010203040202040601020304"},
	{0x8605, "038000000102037f7d00ff00ff"},
	{0x8605, "037e7d7c7b0202040600000000"},
	{0x8606, "0102030401022103040506072103040506070003010203047e7d7c7b00000001055d4a807d8b0102007e01027e7e7d7c7b00000000055d4a80ffffffff800f0000000000000001020304010203040160bcc90160bcc90100"},
	{0x8606, "ffffffff80011010100000592103040506070003010203047e7d7c7b00000001055d4a807d8b0102007e01027e7e7d7c7b00000000055d4a80ffffffff800f000000000000008000000100ff00ff0160bcc90000000000ff00000000000000"},
	{0x8606, "010203047e7d9912312359592002291020300003010203047e7d7c7b00000001055d4a807d8b0102007e01027e7e7d7c7b00000000055d4a80ffffffff800f000000000000007e7d7c7b00000000055d4a80ffffffff800f00000000000000"},
	{0x8607, "03010203040202040601020304"},
	{0x8607, "038000000102037f7d00ff00ff"},
	{0x8607, "037e7d7c7b0202040600000000"},
	{0x8700, "01010203"},
	{0x8700, "ff0000ff"},
	{0x8700, "01"},
	{0x8701, "01010203"},
	{0x8701, "ff0000ff"},
	{0x8701, "01"},
	{0x8702, ""},
	{0x8800, "0102030403010204060102"},
	{0x8800, "ffffffff0300fffdfa0102"},
	{0x8800, "010203040300000406ffff"},
	{0x8801, "010102010201010101010101"},
	{0x8801, "ff800100ff017e00ff7d8001"},
	{0x8801, "017e7d0000ff7d80017e00ff"},
	{0x8802, "010101210304050607210304050607"},
	{0x8802, "ff7d80210304050607000101000000"},
	{0x8802, "017e00200229102030090909090909"},
	{0x8803, "01010121030405060721030405060701"},
	{0x8803, "ff7d8021030405060700010100000000"},
	{0x8803, "017e0020022910203009090909090980"},
	{0x8804, "0101020101"},
	{0x8804, "ff80018001"},
	{0x8804, "017e7d00ff"},
	{0x8805, "0102030401"},
	{0x8805, "ffffffff7d"},
	{0x8805, "010203047e"},
	{0x8900, "01010203"},
	{0x8900, "ff0000ff"},
	{0x8900, "01"},
	{0x8a00, "000100017e080f161d242b323940474e555c636a71787f868d949ba2a9b0b7bec5ccd3dae1e8eff6fd040b121920272e353c434a51585f666d747b828990979ea5acb3bac1c8cfd6dde4ebf2f900070e151c232a31383f464d545b626970777e858c939aa1a8afb6bdc4cbd2d9e0e7eef5fc030a11181f262d343b424950575e656c737a"},
}
