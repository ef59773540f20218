package spec

// Constants of the Poseidon permutations, from Plonky2 (Goldilocks, width 12) and iden3 (BN254,
// width 4, optimised form).

var rcGL = []uint64{
	0xb585f766f2144405, 0x7746a55f43921ad7, 0xb2fb0d31cee799b4, 0x0f6760a4803427d7,
	0xe10d666650f4e012, 0x8cae14cb07d09bf1, 0xd438539c95f63e9f, 0xef781c7ce35b4c3d,
	0xcdc4a239b0c44426, 0x277fa208bf337bff, 0xe17653a29da578a1, 0xc54302f225db2c76,
	0x86287821f722c881, 0x59cd1a8a41c18e55, 0xc3b919ad495dc574, 0xa484c4c5ef6a0781,
	0x308bbd23dc5416cc, 0x6e4a40c18f30c09c, 0x9a2eedb70d8f8cfa, 0xe360c6e0ae486f38,
	0xd5c7718fbfc647fb, 0xc35eae071903ff0b, 0x849c2656969c4be7, 0xc0572c8c08cbbbad,
	0xe9fa634a21de0082, 0xf56f6d48959a600d, 0xf7d713e806391165, 0x8297132b32825daf,
	0xad6805e0e30b2c8a, 0xac51d9f5fcf8535e, 0x502ad7dc18c2ad87, 0x57a1550c110b3041,
	0x66bbd30e6ce0e583, 0x0da2abef589d644e, 0xf061274fdb150d61, 0x28b8ec3ae9c29633,
	0x92a756e67e2b9413, 0x70e741ebfee96586, 0x019d5ee2af82ec1c, 0x6f6f2ed772466352,
	0x7cf416cfe7e14ca1, 0x61df517b86a46439, 0x85dc499b11d77b75, 0x4b959b48b9c10733,
	0xe8be3e5da8043e57, 0xf5c0bc1de6da8699, 0x40b12cbf09ef74bf, 0xa637093ecb2ad631,
	0x3cc3f892184df408, 0x2e479dc157bf31bb, 0x6f49de07a6234346, 0x213ce7bede378d7b,
	0x5b0431345d4dea83, 0xa2de45780344d6a1, 0x7103aaf94a7bf308, 0x5326fc0d97279301,
	0xa9ceb74fec024747, 0x27f8ec88bb21b1a3, 0xfceb4fda1ded0893, 0xfac6ff1346a41675,
	0x7131aa45268d7d8c, 0x9351036095630f9f, 0xad535b24afc26bfb, 0x4627f5c6993e44be,
	0x645cf794b8f1cc58, 0x241c70ed0af61617, 0xacb8e076647905f1, 0x3737e9db4c4f474d,
	0xe7ea5e33e75fffb6, 0x90dee49fc9bfc23a, 0xd1b1edf76bc09c92, 0x0b65481ba645c602,
	0x99ad1aab0814283b, 0x438a7c91d416ca4d, 0xb60de3bcc5ea751c, 0xc99cab6aef6f58bc,
	0x69a5ed92a72ee4ff, 0x5e7b329c1ed4ad71, 0x5fc0ac0800144885, 0x32db829239774eca,
	0x0ade699c5830f310, 0x7cc5583b10415f21, 0x85df9ed2e166d64f, 0x6604df4fee32bcb1,
	0xeb84f608da56ef48, 0xda608834c40e603d, 0x8f97fe408061f183, 0xa93f485c96f37b89,
	0x6704e8ee8f18d563, 0xcee3e9ac1e072119, 0x510d0e65e2b470c1, 0xf6323f486b9038f0,
	0x0b508cdeffa5ceef, 0xf2417089e4fb3cbd, 0x60e75c2890d15730, 0xa6217d8bf660f29c,
	0x7159cd30c3ac118e, 0x839b4e8fafead540, 0x0d3f3e5e82920adc, 0x8f7d83bddee7bba8,
	0x780f2243ea071d06, 0xeb915845f3de1634, 0xd19e120d26b6f386, 0x016ee53a7e5fecc6,
	0xcb5fd54e7933e477, 0xacb8417879fd449f, 0x9c22190be7f74732, 0x5d693c1ba3ba3621,
	0xdcef0797c2b69ec7, 0x3d639263da827b13, 0xe273fd971bc8d0e7, 0x418f02702d227ed5,
	0x8c25fda3b503038c, 0x2cbaed4daec8c07c, 0x5f58e6afcdd6ddc2, 0x284650ac5e1b0eba,
	0x635b337ee819dab5, 0x9f9a036ed4f2d49f, 0xb93e260cae5c170e, 0xb0a7eae879ddb76d,
	0xd0762cbc8ca6570c, 0x34c6efb812b04bf5, 0x40bf0ab5fa14c112, 0xb6b570fc7c5740d3,
	0x5a27b9002de33454, 0xb1a5b165b6d2b2d2, 0x8722e0ace9d1be22, 0x788ee3b37e5680fb,
	0x14a726661551e284, 0x98b7672f9ef3b419, 0xbb93ae776bb30e3a, 0x28fd3b046380f850,
	0x30a4680593258387, 0x337dc00c61bd9ce1, 0xd5eca244c7a4ff1d, 0x7762638264d279bd,
	0xc1e434bedeefd767, 0x0299351a53b8ec22, 0xb2d456e4ad251b80, 0x3e9ed1fda49cea0b,
	0x2972a92ba450bed8, 0x20216dd77be493de, 0xadffe8cf28449ec6, 0x1c4dbb1c4c27d243,
	0x15a16a8a8322d458, 0x388a128b7fd9a609, 0x2300e5d6baedf0fb, 0x2f63aa8647e15104,
	0xf1c36ce86ecec269, 0x27181125183970c9, 0xe584029370dca96d, 0x4d9bbc3e02f1cfb2,
	0xea35bc29692af6f8, 0x18e21b4beabb4137, 0x1e3b9fc625b554f4, 0x25d64362697828fd,
	0x5a3f1bb1c53a9645, 0xdb7f023869fb8d38, 0xb462065911d4e1fc, 0x49c24ae4437d8030,
	0xd793862c112b0566, 0xaadd1106730d8feb, 0xc43b6e0e97b0d568, 0xe29024c18ee6fca2,
	0x5e50c27535b88c66, 0x10383f20a4ff9a87, 0x38e8ee9d71a45af8, 0xdd5118375bf1a9b9,
	0x775005982d74d7f7, 0x86ab99b4dde6c8b0, 0xb1204f603f51c080, 0xef61ac8470250ecf,
	0x1bbcd90f132c603f, 0x0cd1dabd964db557, 0x11a3ae5beb9d1ec9, 0xf755bfeea585d11d,
	0xa3b83250268ea4d7, 0x516306f4927c93af, 0xddb4ac49c9efa1da, 0x64bb6dec369d4418,
	0xf9cc95c22b4c1fcc, 0x08d37f755f4ae9f6, 0xeec49b613478675b, 0xf143933aed25e0b0,
	0xe4c5dd8255dfc622, 0xe7ad7756f193198e, 0x92c2318b87fff9cb, 0x739c25f8fd73596d,
	0x5636cac9f16dfed0, 0xdd8f909a938e0172, 0xc6401fe115063f5b, 0x8ad97b33f1ac1455,
	0x0c49366bb25e8513, 0x0784d3d2f1698309, 0x530fb67ea1809a81, 0x410492299bb01f49,
	0x139542347424b9ac, 0x9cb0bd5ea1a1115e, 0x02e3f615c38f49a1, 0x985d4f4a9c5291ef,
	0x775b9feafdcd26e7, 0x304265a6384f0f2d, 0x593664c39773012c, 0x4f0a2e5fb028f2ce,
	0xdd611f1000c17442, 0xd8185f9adfea4fd0, 0xef87139ca9a3ab1e, 0x3ba71336c34ee133,
	0x7d3a455d56b70238, 0x660d32e130182684, 0x297a863f48cd1f43, 0x90e0a736a751ebb7,
	0x549f80ce550c4fd3, 0x0f73b2922f38bd64, 0x16bf1f73fb7a9c3f, 0x6d1f5a59005bec17,
	0x02ff876fa5ef97c4, 0xc5cb72a2a51159b0, 0x8470f39d2d5c900e, 0x25abb3f1d39fcb76,
	0x23eb8cc9b372442f, 0xd687ba55c64f6364, 0xda8d9e90fd8ff158, 0xe3cbdc7d2fe45ea7,
	0xb9a8c9b3aee52297, 0xc0d28a5c10960bd3, 0x45d7ac9b68f71a34, 0xeeb76e397069e804,
	0x3d06c8bd1514e2d9, 0x9c9c98207cb10767, 0x65700b51aedfb5ef, 0x911f451539869408,
	0x7ae6849fbc3a0ec6, 0x3bb340eba06afe7e, 0xb46e9d8b682ea65e, 0x8dcf22f9a3b34356,
	0x77bdaeda586257a7, 0xf19e400a5104d20d, 0xc368a348e46d950f, 0x9ef1cd60e679f284,
	0xe89cd854d5d01d33, 0x5cd377dc8bb882a2, 0xa7b0fb7883eee860, 0x7684403ec392950d,
	0x5fa3f06f4fed3b52, 0x8df57ac11bc04831, 0x2db01efa1e1e1897, 0x54846de4aadb9ca2,
	0xba6745385893c784, 0x541d496344d2c75b, 0xe909678474e687fe, 0xdfe89923f6c9c2ff,
	0xece5a71e0cfedc75, 0x5ff98fd5d51fe610, 0x83e8941918964615, 0x5922040b47f150c1,
	0xf97d750e3dd94521, 0x5080d4c2b86f56d7, 0xa7de115b56c78d70, 0x6a9242ac87538194,
	0xf7856ef7f9173e44, 0x2265fc92feb0dc09, 0x17dfc8e4f7ba8a57, 0x9001a64209f21db8,
	0x90004c1371b893c5, 0xb932b7cf752e5545, 0xa0b1df81b6fe59fc, 0x8ef1dd26770af2c2,
	0x0541a4f9cfbeed35, 0x9e61106178bfc530, 0xb3767e80935d8af2, 0x0098d5782065af06,
	0x31d191cd5c1466c7, 0x410fefafa319ac9d, 0xbdf8f242e316c4ab, 0x9e8cd55b57637ed0,
	0xde122bebe9a39368, 0x4d001fd58f002526, 0xca6637000eb4a9f8, 0x2f2339d624f91f78,
	0x6d1a7918c80df518, 0xdf9a4939342308e9, 0xebc2151ee6c8398c, 0x03cc2ba8a1116515,
	0xd341d037e840cf83, 0x387cb5d25af4afcc, 0xbba2515f22909e87, 0x7248fe7705f38e47,
	0x4d61e56a525d225a, 0x262e963c8da05d3d, 0x59e89b094d220ec2, 0x055d5b52b78b9c5e,
	0x82b27eb33514ef99, 0xd30094ca96b7ce7b, 0xcf5cb381cd0a1535, 0xfeed4db6919e5a7c,
	0x41703f53753be59f, 0x5eeea940fcde8b6f, 0x4cd1f1b175100206, 0x4a20358574454ec0,
	0x1478d361dbbf9fac, 0x6f02dc07d141875c, 0x296a202ed8e556a2, 0x2afd67999bf32ee5,
	0x7acfd96efa95491d, 0x6798ba0c0abb2c6d, 0x34c6f57b26c92122, 0x5736e1bad206b5de,
	0x20057d2a0056521b, 0x3dea5bd5d0578bd7, 0x16e50d897d4634ac, 0x29bff3ecb9b7a6e3,
	0x475cd3205a3bdcde, 0x18a42105c31b7e88, 0x023e7414af663068, 0x15147108121967d7,
	0xe4a3dff1d7d6fef9, 0x01a8d1a588085737, 0x11b4c74eda62beef, 0xe587cc0d69a73346,
	0x1ff7327017aa2a6e, 0x594e29c42473d06b, 0xf6f31db1899b12d5, 0xc02ac5e47312d3ca,
	0xe70201e960cb78b8, 0x6f90ff3b6a65f108, 0x42747a7245e7fa84, 0xd1f507e43ab749b2,
	0x1c86d265f15750cd, 0x3996ce73dd832c1c, 0x8e7fba02983224bd, 0xba0dec7103255dd4,
	0x9e9cbd781628fc5b, 0xdae8645996edd6a5, 0xdebe0853b1a1d378, 0xa49229d24d014343,
	0x7be5b9ffda905e1c, 0xa3c95eaec244aa30, 0x0230bca8f4df0544, 0x4135c2bebfe148c6,
	0x166fc0cc438a3c72, 0x3762b59a8ae83efa, 0xe8928a4c89114750, 0x2a440b51a4945ee5,
	0x80cefd2b7d99ff83, 0xbb9879c6e61fd62a, 0x6e7c8f1a84265034, 0x164bb2de1bbeddc8,
	0xf3c12fe54d5c653b, 0x40b9e922ed9771e2, 0x551f5b0fbe7b1840, 0x25032aa7c4cb1811,
	0xaaed34074b164346, 0x8ffd96bbf9c9c81d, 0x70fc91eb5937085c, 0x7f795e2a5f915440,
	0x4543d9df5476d3cb, 0xf172d73e004fc90d, 0xdfd1c4febcc81238, 0xbc8dfb627fe558fc,
}

var circGL = []uint64{
	0x0000000000000011, 0x000000000000000f, 0x0000000000000029, 0x0000000000000010,
	0x0000000000000002, 0x000000000000001c, 0x000000000000000d, 0x000000000000000d,
	0x0000000000000027, 0x0000000000000012, 0x0000000000000022, 0x0000000000000014,
}

var diagGL = []uint64{
	8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
}

var firstGL = []uint64{
	0x3cc3f892184df408, 0xe993fd841e7e97f1, 0xf2831d3575f0f3af, 0xd2500e0a350994ca,
	0xc5571f35d7288633, 0x91d89c5184109a02, 0xf37f925d04e5667b, 0x2d6e448371955a69,
	0x740ef19ce01398a1, 0x694d24c0752fdf45, 0x60936af96ee2f148, 0xc33448feadc78f0c,
}

var fastGL = []uint64{
	0x74cb2e819ae421ab, 0xd2559d2370e7f663, 0x62bf78acf843d17c, 0xd5ab7b67e14d1fb4,
	0xb9fe2ae6e0969bdc, 0xe33fdf79f92a10e8, 0x0ea2bb4c2b25989b, 0xca9121fbf9d38f06,
	0xbdd9b0aa81f58fa4, 0x83079fa4ecf20d7e, 0x650b838edfcc4ad3, 0x77180c88583c76ac,
	0xaf8c20753143a180, 0xb8ccfe9989a39175, 0x954a1729f60cc9c5, 0xdeb5b550c4dca53b,
	0xf01bb0b00f77011e, 0xa1ebb404b676afd9, 0x860b6e1597a0173e, 0x308bb65a036acbce,
	0x1aca78f31c97c876, 0x0000000000000000,
}

var vsGL = []uint64{
	0x94877900674181c3, 0xc6c67cc37a2a2bbd, 0xd667c2055387940f, 0x0ba63a63e94b5ff0,
	0x99460cc41b8f079f, 0x7ff02375ed524bb3, 0xea0870b47a8caf0e, 0xabcad82633b7bc9d,
	0x3b8d135261052241, 0xfb4515f5e5b0d539, 0x3ee8011c2b37f77c, 0x0adef3740e71c726,
	0xa37bf67c6f986559, 0xc6b16f7ed4fa1b00, 0x6a065da88d8bfc3c, 0x4cabc0916844b46f,
	0x407faac0f02e78d1, 0x07a786d9cf0852cf, 0x42433fb6949a629a, 0x891682a147ce43b0,
	0x26cfd58e7b003b55, 0x2bbf0ed7b657acb3, 0x481ac7746b159c67, 0xe367de32f108e278,
	0x73f260087ad28bec, 0x5cfc82216bc1bdca, 0xcaccc870a2663a0e, 0xdb69cd7b4298c45d,
	0x7bc9e0c57243e62d, 0x3cc51c5d368693ae, 0x366b4e8cc068895b, 0x2bd18715cdabbca4,
	0xa752061c4f33b8cf, 0xb22d2432b72d5098, 0x9e18a487f44d2fe4, 0x4b39e14ce22abd3c,
	0x9e77fde2eb315e0d, 0xca5e0385fe67014d, 0x0c2cb99bf1b6bddb, 0x99ec1cd2a4460bfe,
	0x8577a815a2ff843f, 0x7d80a6b4fd6518a5, 0xeb6c67123eab62cb, 0x8f7851650eca21a5,
	0x11ba9a1b81718c2a, 0x9f7d798a3323410c, 0xa821855c8c1cf5e5, 0x535e8d6fac0031b2,
	0x404e7c751b634320, 0xa729353f6e55d354, 0x4db97d92e58bb831, 0xb53926c27897bf7d,
	0x965040d52fe115c5, 0x9565fa41ebd31fd7, 0xaae4438c877ea8f4, 0x37f4e36af6073c6e,
	0x4edc0918210800e9, 0xc44998e99eae4188, 0x9f4310d05d068338, 0x9ec7fe4350680f29,
	0xc5b2c1fdc0b50874, 0xa01920c5ef8b2ebe, 0x59fa6f8bd91d58ba, 0x8bfc9eb89b515a82,
	0xbe86a7a2555ae775, 0xcbb8bbaa3810babf, 0x577f9a9e7ee3f9c2, 0x88c522b949ace7b1,
	0x82f07007c8b72106, 0x8283d37c6675b50e, 0x98b074d9bbac1123, 0x75c56fb7758317c1,
	0xfed24e206052bc72, 0x26d7c3d1bc07dae5, 0xf88c5e441e28dbb4, 0x4fe27f9f96615270,
	0x514d4ba49c2b14fe, 0xf02a3ac068ee110b, 0x0a3630dafb8ae2d7, 0xce0dc874eaf9b55c,
	0x9a95f6cff5b55c7e, 0x626d76abfed00c7b, 0xa0c1cf1251c204ad, 0xdaebd3006321052c,
	0x3d4bd48b625a8065, 0x7f1e584e071f6ed2, 0x720574f0501caed3, 0xe3260ba93d23540a,
	0xab1cbd41d8c1e335, 0x9322ed4c0bc2df01, 0x51c3c0983d4284e5, 0x94178e291145c231,
	0xfd0f1a973d6b2085, 0xd427ad96e2b39719, 0x8a52437fecaac06b, 0xdc20ee4b8c4c9a80,
	0xa2c98e9549da2100, 0x1603fe12613db5b6, 0x0e174929433c5505, 0x3d4eab2b8ef5f796,
	0xcfff421583896e22, 0x4143cb32d39ac3d9, 0x22365051b78a5b65, 0x6f7fd010d027c9b6,
	0xd9dd36fba77522ab, 0xa44cf1cb33e37165, 0x3fc83d3038c86417, 0xc4588d418e88d270,
	0xce1320f10ab80fe2, 0xdb5eadbbec18de5d, 0x1183dfce7c454afd, 0x21cea4aa3d3ed949,
	0x0fce6f70303f2304, 0x19557d34b55551be, 0x4c56f689afc5bbc9, 0xa1e920844334f944,
	0xbad66d423d2ec861, 0xf318c785dc9e0479, 0x99e2032e765ddd81, 0x400ccc9906d66f45,
	0xe1197454db2e0dd9, 0x84d1ecc4d53d2ff1, 0xd8af8b9ceb4e11b6, 0x335856bb527b52f4,
	0xc756f17fb59be595, 0xc0654e4ea5553a78, 0x9e9a46b61f2ea942, 0x14fc8b5b3b809127,
	0xd7009f0f103be413, 0x3e0ee7b7a9fb4601, 0xa74e888922085ed7, 0xe80a7cde3d4ac526,
	0x238aa6daa612186d, 0x9137a5c630bad4b4, 0xc7db3817870c5eda, 0x217e4f04e5718dc9,
	0xcae814e2817bd99d, 0xe3292e7ab770a8ba, 0x7bb36ef70b6b9482, 0x3c7835fb85bca2d3,
	0xfe2cdf8ee3c25e86, 0x61b3915ad7274b20, 0xeab75ca7c918e4ef, 0xd6e15ffc055e154e,
	0xec67881f381a32bf, 0xfbb1196092bf409c, 0xdc9d2e07830ba226, 0x0698ef3245ff7988,
	0x194fae2974f8b576, 0x7a5d9bea6ca4910e, 0x7aebfea95ccdd1c9, 0xf9bd38a67d5f0e86,
	0xfa65539de65492d8, 0xf0dfcbe7653ff787, 0x0bd87ad390420258, 0x0ad8617bca9e33c8,
	0x0c00ad377a1e2666, 0x0ac6fc58b3f0518f, 0x0c0cc8a892cc4173, 0x0c210accb117bc21,
	0x0b73630dbb46ca18, 0x0c8be4920cbd4a54, 0x0bfe877a21be1690, 0x0ae790559b0ded81,
	0x0bf50db2f8d6ce31, 0x000cf29427ff7c58, 0x000bd9b3cf49eec8, 0x000d1dc8aa81fb26,
	0x000bc792d5c394ef, 0x000d2ae0b2266453, 0x000d413f12c496c1, 0x000c84128cfed618,
	0x000db5ebd48fc0d4, 0x000d1b77326dcb90, 0x000beb0ccc145421, 0x000d10e5b22b11d1,
	0x00000e24c99adad8, 0x00000cf389ed4bc8, 0x00000e580cbf6966, 0x00000cde5fd7e04f,
	0x00000e63628041b3, 0x00000e7e81a87361, 0x00000dabe78f6d98, 0x00000efb14cac554,
	0x00000e5574743b10, 0x00000d05709f42c1, 0x00000e4690c96af1, 0x0000000f7157bc98,
	0x0000000e3006d948, 0x0000000fa65811e6, 0x0000000e0d127e2f, 0x0000000fc18bfe53,
	0x0000000fd002d901, 0x0000000eed6461d8, 0x0000001068562754, 0x0000000fa0236f50,
	0x0000000e3af13ee1, 0x0000000fa460f6d1, 0x0000000011131738, 0x000000000f56d588,
	0x0000000011050f86, 0x000000000f848f4f, 0x00000000111527d3, 0x00000000114369a1,
	0x00000000106f2f38, 0x0000000011e2ca94, 0x00000000110a29f0, 0x000000000fa9f5c1,
	0x0000000010f625d1, 0x000000000011f718, 0x000000000010b6c8, 0x0000000000134a96,
	0x000000000010cf7f, 0x0000000000124d03, 0x000000000013f8a1, 0x0000000000117c58,
	0x0000000000132c94, 0x0000000000134fc0, 0x000000000010a091, 0x0000000000128961,
	0x0000000000001300, 0x0000000000001750, 0x000000000000114e, 0x000000000000131f,
	0x000000000000167b, 0x0000000000001371, 0x0000000000001230, 0x000000000000182c,
	0x0000000000001368, 0x0000000000000f31, 0x00000000000015c9, 0x0000000000000014,
	0x0000000000000022, 0x0000000000000012, 0x0000000000000027, 0x000000000000000d,
	0x000000000000000d, 0x000000000000001c, 0x0000000000000002, 0x0000000000000010,
	0x0000000000000029, 0x000000000000000f,
}

var wsGL = []uint64{
	0x3d999c961b7c63b0, 0x814e82efcd172529, 0x2421e5d236704588, 0x887af7d4dd482328,
	0xa5e9c291f6119b27, 0xbdc52b2676a4b4aa, 0x64832009d29bcf57, 0x09c4155174a552cc,
	0x463f9ee03d290810, 0xc810936e64982542, 0x043b1c289f7bc3ac, 0x673655aae8be5a8b,
	0xd510fe714f39fa10, 0x2c68a099b51c9e73, 0xa667bfa9aa96999d, 0x4d67e72f063e2108,
	0xf84dde3e6acda179, 0x40f9cc8c08f80981, 0x5ead032050097142, 0x6591b02092d671bb,
	0x00e18c71963dd1b7, 0x8a21bcd24a14218a, 0x202800f4addbdc87, 0xe4b5bdb1cc3504ff,
	0xbe32b32a825596e7, 0x8e0f68c5dc223b9a, 0x58022d9e1c256ce3, 0x584d29227aa073ac,
	0x8b9352ad04bef9e7, 0xaead42a3f445ecbf, 0x3c667a1d833a3cca, 0xda6f61838efa1ffe,
	0xe8f749470bd7c446, 0xc5b85bab9e5b3869, 0x45245258aec51cf7, 0x16e6b8e68b931830,
	0xe2ae0f051418112c, 0x0470e26a0093a65b, 0x6bef71973a8146ed, 0x119265be51812daf,
	0xb0be7356254bea2e, 0x8584defff7589bd7, 0x3c5fe4aeb1fb52ba, 0x9e7cd88acf543a5e,
	0x179be4bba87f0a8c, 0xacf63d95d8887355, 0x6696670196b0074f, 0xd99ddf1fe75085f9,
	0xc2597881fef0283b, 0xcf48395ee6c54f14, 0x15226a8e4cd8d3b6, 0xc053297389af5d3b,
	0x2c08893f0d1580e2, 0x0ed3cbcff6fcc5ba, 0xc82f510ecf81f6d0, 0x94b06183acb715cc,
	0x500392ed0d431137, 0x861cc95ad5c86323, 0x05830a443f86c4ac, 0x3b68225874a20a7c,
	0x10b3309838e236fb, 0x9b77fc8bcd559e2c, 0xbdecf5e0cb9cb213, 0x30276f1221ace5fa,
	0x7935dd342764a144, 0xeac6db520bb03708, 0x7186a80551025f8f, 0x622247557e9b5371,
	0xc4cbe326d1ad9742, 0x55f1523ac6a23ea2, 0xa13dfe77a3d52f53, 0xe30750b6301c0452,
	0x08bd488070a3a32b, 0xcd800caef5b72ae3, 0x83329c90f04233ce, 0xb5b99e6664a0a3ee,
	0x6b0731849e200a7f, 0xec3fabc192b01799, 0x382b38cee8ee5375, 0x3bfb6c3f0e616572,
	0x514abd0cf6c7bc86, 0x47521b1361dcc546, 0x178093843f863d14, 0xad1003c5d28918e7,
	0x738450e42495bc81, 0xaf947c59af5e4047, 0x4653fb0685084ef2, 0x057fde2062ae35bf,
	0xe376678d843ce55e, 0x66f3860d7514e7fc, 0x7817f3dfff8b4ffa, 0x3929624a9def725b,
	0x0126ca37f215a80a, 0xfce2f5d02762a303, 0x1bc927375febbad7, 0x85b481e5243f60bf,
	0x2d3c5f42a39c91a0, 0x0811719919351ae8, 0xf669de0add993131, 0x7de38bae084da92d,
	0x5b848442237e8a9b, 0xf6c705da84d57310, 0x31e6a4bdb6a49017, 0x889489706e5c5c0f,
	0x0e4a205459692a1b, 0xbac3fa75ee26f299, 0x5f5894f4057d755e, 0xb0dc3ecd724bb076,
	0x5e34d8554a6452ba, 0x04f78fd8c1fdcc5f, 0x4dd19c38779512ea, 0xdb79ba02704620e9,
	0x92a29a3675a5d2be, 0xd5177029fe495166, 0xd32b3298a13330c1, 0x251c4a3eb2c5f8fd,
	0xe1c48b26e0d98825, 0x3301d3362a4ffccb, 0x09bb6c88de8cd178, 0xdc05b676564f538a,
	0x60192d883e473fee, 0x16b9774801ac44a0, 0x3cb8411e786d3c8e, 0xa86e9cf505072491,
	0x0178928152e109ae, 0x5317b905a6e1ab7b, 0xda20b3be7f53d59f, 0xcb97dedecebee9ad,
	0x4bd545218c59f58d, 0x77dc8d856c05a44a, 0x87948589e4f243fd, 0x7e5217af969952c2,
	0xbc58987d06a84e4d, 0x0b5d420244c9cae3, 0xa3c4711b938c02c0, 0x3aace640a3e03990,
	0x865a0f3249aacd8a, 0x8d00b2a7dbed06c7, 0x6eacb905beb7e2f8, 0x045322b216ec3ec7,
	0xeb9de00d594828e6, 0x088c5f20df9e5c26, 0xf555f4112b19781f, 0xa8cedbff1813d3a7,
	0x50dcaee0fd27d164, 0xf1cb02417e23bd82, 0xfaf322786e2abe8b, 0x937a4315beb5d9b6,
	0x1b18992921a11d85, 0x7d66c4368b3c497b, 0x0e7946317a6b4e99, 0xbe4430134182978b,
	0x3771e82493ab262d, 0xa671690d8095ce82, 0xb035585f6e929d9d, 0xba1579c7e219b954,
	0xcb201cf846db4ba3, 0x287bf9177372cf45, 0xa350e4f61147d0a6, 0xd5d0ecfb50bcff99,
	0x2e166aa6c776ed21, 0xe1e66c991990e282, 0x662b329b01e7bb38, 0x8aa674b36144d9a9,
	0xcbabf78f97f95e65, 0xeec24b15a06b53fe, 0xc8a7aa07c5633533, 0xefe9c6fa4311ad51,
	0xb9173f13977109a1, 0x69ce43c9cc94aedc, 0xecf623c9cd118815, 0x28625def198c33c7,
	0xccfc5f7de5c3636a, 0xf5e6c40f1621c299, 0xcec0e58c34cb64b1, 0xa868ea113387939f,
	0xd8dddbdc5ce4ef45, 0xacfc51de8131458c, 0x146bb3c0fe499ac0, 0x9e65309f15943903,
	0x80d0ad980773aa70, 0xf97817d4ddbf0607, 0xe4626620a75ba276, 0x0dfdc7fd6fc74f66,
	0xf464864ad6f2bb93, 0x02d55e52a5d44414, 0xdd8de62487c40925, 0xc15acf44759545a3,
	0xcbfdcf39869719d4, 0x33f62042e2f80225, 0x2599c5ead81d8fa3, 0x0b306cb6c1d7c8d0,
	0x658c80d3df3729b1, 0xe8d1b2b21b41429c, 0xa1b67f09d4b3ccb8, 0x0e1adf8b84437180,
	0x0d593a5e584af47b, 0xa023d94c56e151c7, 0x49026cc3a4afc5a6, 0xe06dff00ab25b91b,
	0x0ab38c561e8850ff, 0x92c3c8275e105eeb, 0xb65256e546889bd0, 0x3c0468236ea142f6,
	0xee61766b889e18f2, 0xa206f41b12c30415, 0x02fe9d756c9f12d1, 0xe9633210630cbf12,
	0x1ffea9fe85a0b0b1, 0x81d1ae8cc50240f3, 0xf4c77a079a4607d7, 0xed446b2315e3efc1,
	0x0b0a6b70915178c3, 0xb11ff3e089f15d9a, 0x1d4dba0b7ae9cc18, 0x65d74e2f43b48d05,
	0xa2df8c6b8ae0804a, 0xa4e6f0a8c33348a6, 0xc0a26efc7be5669b, 0xa6b6582c547d0d60,
	0x84afc741f1c13213, 0x2f8f43734fc906f3, 0xde682d72da0a02d9, 0x0bb005236adb9ef2,
	0x5bdf35c10a8b5624, 0x0739a8a343950010, 0x52f515f44785cfbc, 0xcbaf4e5d82856c60,
	0xac9ea09074e3e150, 0x8f0fa011a2035fb0, 0x1a37905d8450904a, 0x3abeb80def61cc85,
	0x9d19c9dd4eac4133, 0x075a652d9641a985, 0x9daf69ae1b67e667, 0x364f71da77920a18,
	0x50bd769f745c95b1, 0xf223d1180dbbf3fc, 0x2f885e584e04aa99, 0xb69a0fa70aea684a,
	0x09584acaa6e062a0, 0x0bc051640145b19b,
}

var initGL = []uint64{
	0x80772dc2645b280b, 0xdc927721da922cf8, 0xc1978156516879ad, 0x90e80c591f48b603,
	0x3a2432625475e3ae, 0x00a2d4321cca94fe, 0x77736f524010c932, 0x904d3f2804a36c54,
	0xbf9b39e28a16f354, 0x3a1ded54a6cd058b, 0x42392870da5737cf, 0xe796d293a47a64cb,
	0xb124c33152a2421a, 0x0ee5dc0ce131268a, 0xa9032a52f930fae6, 0x7e33ca8c814280de,
	0xad11180f69a8c29e, 0xc75ac6d5b5a10ff3, 0xf0674a8dc5a387ec, 0xb36d43120eaa5e2b,
	0x6f232aab4b533a25, 0x3a1ded54a6cd058b, 0xdcedab70f40718ba, 0x14a4a64da0b2668f,
	0x4715b8e5ab34653b, 0x1e8916a99c93a88e, 0xbba4b5d86b9a3b2c, 0xe76649f9bd5d5c2e,
	0xaf8e2518a1ece54d, 0xdcda1344cdca873f, 0xcd080204256088e5, 0xb36d43120eaa5e2b,
	0xbf9b39e28a16f354, 0xf4a437f2888ae909, 0xc537d44dc2875403, 0x7f68007619fd8ba9,
	0xa4911db6a32612da, 0x2f7e9aade3fdaec1, 0xe7ffd578da4ea43d, 0x43a608e7afa6b5c2,
	0xca46546aa99e1575, 0xdcda1344cdca873f, 0xf0674a8dc5a387ec, 0x904d3f2804a36c54,
	0xf97abba0dffb6c50, 0x5e40f0c9bb82aab5, 0x5996a80497e24a6b, 0x07084430a7307c9a,
	0xad2f570a5b8545aa, 0xab7f81fef4274770, 0xcb81f535cf98c9e9, 0x43a608e7afa6b5c2,
	0xaf8e2518a1ece54d, 0xc75ac6d5b5a10ff3, 0x77736f524010c932, 0x7f8e41e0b0a6cdff,
	0x4b1ba8d40afca97d, 0x623708f28fca70e8, 0xbf150dc4914d380f, 0xc26a083554767106,
	0x753b8b1126665c22, 0xab7f81fef4274770, 0xe7ffd578da4ea43d, 0xe76649f9bd5d5c2e,
	0xad11180f69a8c29e, 0x00a2d4321cca94fe, 0x726af914971c1374, 0x1d7f8a2cce1a9d00,
	0x18737784700c75cd, 0x7fb45d605dd82838, 0x862361aeab0f9b6e, 0xc26a083554767106,
	0xad2f570a5b8545aa, 0x2f7e9aade3fdaec1, 0xbba4b5d86b9a3b2c, 0x7e33ca8c814280de,
	0x3a2432625475e3ae, 0x64dd936da878404d, 0x4db9a2ead2bd7262, 0xbe2e19f6d07f1a83,
	0x02290fe23c20351a, 0x7fb45d605dd82838, 0xbf150dc4914d380f, 0x07084430a7307c9a,
	0xa4911db6a32612da, 0x1e8916a99c93a88e, 0xa9032a52f930fae6, 0x90e80c591f48b603,
	0x85418a9fef8a9890, 0xd8a2eb7ef5e707ad, 0xbfe85ababed2d882, 0xbe2e19f6d07f1a83,
	0x18737784700c75cd, 0x623708f28fca70e8, 0x5996a80497e24a6b, 0x7f68007619fd8ba9,
	0x4715b8e5ab34653b, 0x0ee5dc0ce131268a, 0xc1978156516879ad, 0x156048ee7a738154,
	0x91f7562377e81df5, 0xd8a2eb7ef5e707ad, 0x4db9a2ead2bd7262, 0x1d7f8a2cce1a9d00,
	0x4b1ba8d40afca97d, 0x5e40f0c9bb82aab5, 0xc537d44dc2875403, 0x14a4a64da0b2668f,
	0xb124c33152a2421a, 0xdc927721da922cf8, 0xd841e8ef9dde8ba0, 0x156048ee7a738154,
	0x85418a9fef8a9890, 0x64dd936da878404d, 0x726af914971c1374, 0x7f8e41e0b0a6cdff,
	0xf97abba0dffb6c50, 0xf4a437f2888ae909, 0xdcedab70f40718ba, 0xe796d293a47a64cb,
	0x80772dc2645b280b,
}

// BN254, t=4, 8 full and 56 partial rounds: output of the Grain LFSR of the Poseidon paper
var rcBN = []string{
	"11633431549750490989983886834189948010834808234699737327785600195936805266405",
	"17353750182810071758476407404624088842693631054828301270920107619055744005334",
	"11575173631114898451293296430061690731976535592475236587664058405912382527658",
	"9724643380371653925020965751082872123058642683375812487991079305063678725624",
	"20936725237749945635418633443468987188819556232926135747685274666391889856770",
	"6427758822462294912934022562310355233516927282963039741999349770315205779230",
	"16782979953202249973699352594809882974187694538612412531558950864304931387798",
	"8979171037234948998646722737761679613767384188475887657669871981433930833742",
	"5428827536651017352121626533783677797977876323745420084354839999137145767736",
	"507241738797493565802569310165979445570507129759637903167193063764556368390",
	"6711578168107599474498163409443059675558516582274824463959700553865920673097",
	"2197359304646916921018958991647650011119043556688567376178243393652789311643",
	"4634703622846121403803831560584049007806112989824652272428991253572845447400",
	"17008376818199175111793852447685303011746023680921106348278379453039148937791",
	"18430784755956196942937899353653692286521408688385681805132578732731487278753",
	"4573768376486344895797915946239137669624900197544620153250805961657870918727",
	"5624865188680173294191042415227598609140934495743721047183803859030618890703",
	"8228252753786907198149068514193371173033070694924002912950645971088002709521",
	"17586714789554691446538331362711502394998837215506284064347036653995353304693",
	"12985198716830497423350597750558817467658937953000235442251074063454897365701",
	"13480076116139680784838493959937969792577589073830107110893279354229821035984",
	"480609231761423388761863647137314056373740727639536352979673303078459561332",
	"19503345496799249258956440299354839375920540225688429628121751361906635419276",
	"16837818502122887883669221005435922946567532037624537243846974433811447595173",
	"5492108497278641078569490709794391352213168666744080628008171695469579703581",
	"11365311159988448419785032079155356000691294261495515880484003277443744617083",
	"13876891705632851072613751905778242936713392247975808888614530203269491723653",
	"10660388389107698747692475159023710744797290186015856503629656779989214850043",
	"18876318870401623474401728758498150977988613254023317877612912724282285739292",
	"15543349138237018307536452195922365893694804703361435879256942490123776892424",
	"2839988449157209999638903652853828318645773519300826410959678570041742458201",
	"7566039810305694135184226097163626060317478635973510706368412858136696413063",
	"6344830340705033582410486810600848473125256338903726340728639711688240744220",
	"12475357769019880256619207099578191648078162511547701737481203260317463892731",
	"13337401254840718303633782478677852514218549070508887338718446132574012311307",
	"21161869193849404954234950798647336336709035097706159414187214758702055364571",
	"20671052961616073313397254362345395594858011165315285344464242404604146448678",
	"2772189387845778213446441819361180378678387127454165972767013098872140927416",
	"3339032002224218054945450150550795352855387702520990006196627537441898997147",
	"14919705931281848425960108279746818433850049439186607267862213649460469542157",
	"17056699976793486403099510941807022658662936611123286147276760381688934087770",
	"16144580075268719403964467603213740327573316872987042261854346306108421013323",
	"15582343953927413680541644067712456296539774919658221087452235772880573393376",
	"17528510080741946423534916423363640132610906812668323263058626230135522155749",
	"3190600034239022251529646836642735752388641846393941612827022280601486805721",
	"8463814172152682468446984305780323150741498069701538916468821815030498611418",
	"16533435971270903741871235576178437313873873358463959658178441562520661055273",
	"11845696835505436397913764735273748291716405946246049903478361223369666046634",
	"18391057370973634202531308463652130631065370546571735004701144829951670507215",
	"262537877325812689820791215463881982531707709719292538608229687240243203710",
	"2187234489894387585309965540987639130975753519805550941279098789852422770021",
	"19189656350920455659006418422409390013967064310525314160026356916172976152967",
	"15839474183930359560478122372067744245080413846070743460407578046890458719219",
	"1805019124769763805045852541831585930225376844141668951787801647576910524592",
	"323592203814803486950280155834638828455175703393817797003361354810251742052",
	"9780393509796825017346015868945480913627956475147371732521398519483580624282",
	"14009429785059642386335012561867511048847749030947687313594053997432177705759",
	"13749550162460745037234826077137388777330401847577727796245150843898019635981",
	"19497187499283431845443758879472819384797584633472792651343926414232528405311",
	"3708428802547661961864524194762556064568867603968214870300574294082023305587",
	"1339414413482882567499652761996854155383863472782829777976929310155400981782",
	"6396261245879814100794661157306877072718690153118140891315137894471052482309",
	"2069661495404347929962833138824526893650803079024564477269192079629046031674",
	"15793521554502133342917616035884588152451122589545915605459159078589855944361",
	"17053424498357819626596285492499512504457128907932827007302385782133229252374",
	"13658536470391360399708067455536748955260723760813498481671323619545320978896",
	"21546095668130239633971575351786704948662094117932406102037724221634677838565",
	"21411726238386979516934941789127061362496195649331822900487557574597304399109",
	"1944776378988765673004063363506638781964264107780425928778257145151172817981",
	"15590719714223718537172639598316570285163081746016049278954513732528516468773",
	"1351266421179051765004709939353170430290500926943038391678843253157009556309",
	"6772476224477167317130064764757502335545080109882028900432703947986275397548",
	"10670120969725161535937685539136065944959698664551200616467222887025111751992",
	"4731853626374224678749618809759140702342195350742653173378450474772131006181",
	"14473527495914528513885847341981310373531349450901830749157165104135412062812",
	"16937191362061486658876740597821783333355021670608822932942683228741190786143",
	"5656559696428674390125424316117443507583679061659043998559560535270557939546",
	"8897648276515725841133578021896617755369443750194849587616503841335248902806",
	"14938684446722672719637788054570691068799510611164812175626676768545923371470",
	"15284149043690546115252102390417391226617211133644099356880071475803043461465",
	"2623479025068612775740107497276979457946709347831661908218182874823658838107",
	"6809791961761836061129379546794905411734858375517368211894790874813684813988",
	"2417620338751920563196799065781703780495622795713803712576790485412779971775",
	"4445143310792944321746901285176579692343442786777464604312772017806735512661",
	"1429019233589939118995503267516676481141938536269008901607126781291273208629",
	"19874283200702583165110559932895904979843482162236139561356679724680604144459",
	"13426632171723830006915194799390005513190035492503509233177687891041405113055",
	"10582332261829184460912611488470654685922576576939233092337240630493625631748",
	"21233753931561918964692715735079738969202507286592442257083521969358109931739",
	"15570526832729960536088203016939646235070527502823725736220985057263010426410",
	"9379993197409194016084018867205217180276068758980710078281820842068357746159",
	"20771047769547788232530761122022227554484215799917531852224053856574439035591",
	"20468066117407230615347036860121267564735050776924839007390915936603720868039",
	"5488458379783632930817704196671117722181776789793038046303454621235628350505",
	"1394272944960494549436156060041871735938329188644910029274839018389507786995",
	"5147716541319265558364686380685869814344975511061045836883803841066664401308",
	"14583556014436264794011679557180458872925270147116325433110111823036572987256",
	"11881598145635709076820802010238799308467020773223027240974808290357539410246",
	"1566675577370566803714158020143436746360531503329117352692311127363508063658",
	"212097210828847555076368799807292486212366234848453077606919035866276438405",
	"7447795983723838393344606913699113402588250391491430720006009618589586043349",
	"7626475329478847982857743246276194948757851985510858890691733676098590062312",
	"148936322117705719734052984176402258788283488576388928671173547788498414614",
	"15456385653678559339152734484033356164266089951521103188900320352052358038156",
	"18207029603568083031075933940507782729612798852390383193518574746240484434885",
	"2783356767974552799246444090988849933848968900471538294757665724820698962027",
	"2721136724873145834448711197875719736776242904173494370334510875996324906822",
	"2101139679159828164567502977338446902934095964116292264803779234163802308621",
	"8995221857405946029753863203034191016106353727035116779995228902499254557482",
	"502050382895618998241481591846956281507455925731652006822624065608151015665",
	"4998642074447347292230083981705092465562944918178587362047610976950173759150",
	"9349925422548495396957991080641322437286312278286826683803695584372829655908",
	"11780347248050333407713097022607360765169543706092266937432199545936788840710",
	"17875657248128792902343900636176628524337469245418171053476833541334867949063",
	"10366707960411170224546487410133378396211437543372531210718212258701730218585",
	"16918708725327525329474486073529093971911689155838787615544405646587858805834",
	"18845394288827839099791436411179859406694814287249240544635770075956540806104",
	"9838806160073701591447223014625214979004281138811495046618998465898136914308",
	"10285680425916086863571101560978592912547567902925573205991454216988033815759",
	"1292119286233210185026381033809498665433650491423040630240164455269575958565",
	"2665524343601461489082054230426835550060387413710679950970616347092017688857",
	"13502286133892103192305476866434484921895765252706158317341618311553476426306",
	"686854655578191041672292972738875170071982317195092845673566320025160026512",
	"9315942923163981372372434957632152754092082859001311184186702151150554806508",
	"17166793131238158480636170455452575971861309825745828685724097210995239015581",
	"4443784618760852757287735236046535266034706880634443644576653970979377878608",
	"21470445782021672615018345703580059646973568891521510437236903770708690160080",
	"6932852445473908850835611723958058203645654625170962537129706393570586565567",
	"17078326120157725640173982185667969009350208542843294226397809921509565607842",
	"19251873001736801921864956728611772738233338338726553113352118847732921831266",
	"13062907978694932362695258750558734366820802962383346229947907261606619788585",
	"16576609187793673559170206379939616900133457644695219057683704871664434872406",
	"17140499059660867342372156843620845644831519603574612796639429147195776838516",
	"16226688173010504218547945848523900236290532501559570164276462499487632388445",
	"2806068123803905806401128967330263340459046260107112845068533446899070326517",
	"17788735370835052317224182711467216134690146479710634688273650370951230404901",
	"9840665370904113434661468973557421114403401847108482949465899631150766783733",
	"17357287363046228581837055771327121704742940914150998420465281177406182088510",
	"8956082469997974864521346025916496675956939495318858500685756691488425559998",
	"10583741436561099911914917245130852199607666337956354910388730829023746895549",
	"15241902639811607164983030447109332729761435946009172128089506810551693978973",
	"10889882303914055687481932975789161945462141459528413507160087442461090813788",
	"19789561133254944544821898921133697408237804586549835559829396563401674817160",
	"20741336668287037026472434608739333171202674306575625457456116338034432647230",
	"17864073449995977742930566850933082711031717858550870842712972350665650521079",
	"6017691253505466300212182439349954426085752315661098358839308909771637792741",
	"5209125836207196173669497054522582922896061838702136844305036341250990710540",
	"8138726312837322624537330169363664364899441867118983214176695868443641051381",
	"15491983986041746833254372934846748393213690608865689646440909282144232382678",
	"5054332867608171303802774230688792431028169804536607979111644888500809938980",
	"15427030776591294577308915282298854681562344215287630895931797573417982096417",
	"21754057982677295571284116502193272661309010996970316384923307174180521790164",
	"16265286590463120486705206231835953324076688991892805307349612983237844034032",
	"17679791107777049796013011282788633179411040182820636236163074053597517790779",
	"4281652562868629887097957174897458165728741859103571825874408386197225591996",
	"9168010397863299719604788533602757515513214141450093775967322808686129400625",
	"17584182367226175071087689123358883902969885218985589531538416263709138156515",
	"15671512310414658663135385639435845966109237059155734764323312289873534719186",
	"10536294659491685326297777845632759824567028904726211134518740400643540109527",
	"13431319759608247201135260841651365578663315527795431484765940626659812285319",
	"9584697124715190200241839387725546204368618031045071660911490086723434692561",
	"5180327104839158483066851400960171505063442195966219343315555549982472660055",
	"18888217223053385111625483360538133292128748730565502371803782424772027937822",
	"19535732913737027522540340630296365525208404217634392013266346283017745945894",
	"8577759627886344995887423695190093296190181539234301534326157005220006624466",
	"16793670928407147476673650839110019799844249677846432113010280456483595763987",
	"13926032620965299897272071104154310460519723329016284975305942957859374938463",
	"4794697578055472890255676575927616606591024075768967985031137397587590174501",
	"3529566190782060578446859853852791941913086545101307988176595267965876143250",
	"3975008029239568933166738482470827494289192118694622729549964538823092192163",
	"17739094873244464728483944474780943281491793683051033330476367597242349886622",
	"7367136451127531266518046223598095299278392589059366687082785080179161005418",
	"11175297939460631138047404082172242706491354303440776362693987984031241399771",
	"21687543815463985355165197827968086406938428974327951792877419032069230058777",
	"21156136641989461785420005321350884477682466566148802533375726181416623358719",
	"17347558768803521970212188258074365309929638984714303299899732035040892048478",
	"16293716234695956076322008955071091921491953458541407305955104663269677475740",
	"4206144021605871396668976569508168522675546062304959729829228403361714668567",
	"19988050626299122864942213847548542155670073758974734015174045163059179151544",
	"747972634423324369570795147739377097591383105262743308036321386836856106229",
	"4612470951309047869982067912468200581649949743307592869671537990797895413707",
	"9630852913694079049153027193127278569487291430069466630362958024525616303220",
	"17941539917430916523930519432495442476511211427972760202450248798031711471474",
	"20332911350443969653703295317915788278109458962706923653715140186132935894113",
	"21764801803055897327474057344100833670291402543384934706514147201527191846513",
	"18792043166429470991157980448329308661526906138700725174612608941551872082876",
	"12308177224490762720061048892842527800271687977085172836705858261595655154325",
	"6234555076867437297776538521925679658360922070165740193866337972293380196151",
	"4651047048822067434403056477377459986292934655827821636179452835839127581305",
	"4762047093602693619418269784972874862577325737690375448572644958129932507374",
	"12373514879531674477721132062882065826558811149582829246378921774344318418269",
	"452512704634345955634014968317367844987135264395068376894497483188243356523",
	"21642936370936057063268550589361090955573362743817395689260298777690935495218",
	"16170209200627740434842090607802586195654207376087117044989637541681675086276",
	"11682826760471401430136435257946377996085824742031456481961511737883954750045",
	"20628055165039718158878805520495324869838279647796500565701893698896698211929",
	"16438375313036818694140277721632185529697783132872683043559674569424388375143",
	"4855690425141732729622202649174026736476144238882856677953515240716341676853",
	"11680269552161854836013784579325442981497075865007420427279871128110023581360",
	"7052688838948398479718163301866620773458411881591190572311273079833122884040",
	"10339199500986679207942447430230758709198802637648680544816596214595887890122",
	"16310974164366557619327768780809157500356605306298690718711623172209302167675",
	"4572051236178600578566286373491186377601851723137133424312445102215267283375",
	"20933392620931420860078756859763708025350478446661033451436796955762857910093",
	"10145870387395991071594748880090507240612313913083518483680901820696866812598",
	"11173854866888110108878560284050142518686158431744851782991510385755602063727",
	"3895357290105797542988795070918100785105415165483657264407967118738833241858",
	"16358886674154007883356717944805100413481233709808000948036974385803613296849",
	"10544067501284177518983466437755150442726536257903869254459488412549270232123",
	"10495171258604974589451578238018388630585794890815982293891430761424812600427",
	"13820724103604550843562070971473423552484851063169471886037640613650155173554",
	"2334954333435579600152488915208745055087482119087065911968347050969338669409",
	"15100284614446277058846085121308897497066957549089629374506920751044105723791",
	"8493821960754696376711287628276980042183127459347650448500304251148421115590",
	"18612435536889941393944858783110719304584209891406420832295898519317994950798",
	"362101794940079733974215941991047456600874474038781578925062694203564740952",
	"11020033081956343850903875701444955317664141075326494650405276926536449284939",
	"9396289482656518627529185765935649373549564165735162258912975312413185691167",
	"6879055176150676925438486069371149089824290576271090206945130252868108043422",
	"12466610601804566637227883322591924115458766539177061670432424956205788935144",
	"6570302110526154075173287644133038486970998888099669190857256824048085590052",
	"20997862990590350605775941983360263378441519274215787225587679916056749626824",
	"2642485040919927233352421501444361753154137311893617974318977215281720542724",
	"18832940311494549247524002614969382413324906834787422940144532352384742506504",
	"18751288968473015103659806087408412890105261892140397690496125593160830694164",
	"13938622158186434739533995447553824444480420613323252752005511269934155122652",
	"12878982657080117316101160964182202074759312554860119090514406868768962707099",
	"13757859113119127982418426758782225628393556023865807897214601826218702003247",
	"11817871682869491875135867072669251115204978941736982465520516648114811792373",
	"11336448548896065624515261709306933490181794458266726453198857687608284871020",
	"194970717714150352477887371297168267861902418496792228400198694925721020795",
	"4999282817977533227652305360183045040853565298259070645110453061034932285549",
	"17094174197873140035316532568922652294881600587639905417701074492648767414173",
	"8484251464872873032022789624790167173458682056313339863651348894878144808746",
	"10260366716129057466862964875306868898686918428814373470382979997177852668590",
	"549263552864476084904464374701167884060947403076520259964592729731619317724",
	"10052714818439832487575851829190658679562445501271745818931448693381812170889",
	"1735373362835209096342827192021124337509188507323448903608623506589963950966",
	"7998373949540733111485892137806629484517602009122941425332571732658301689428",
	"9035170288660659483243066011612158174896974797912618405030929911180945246244",
	"6458619567307414386633203375143968061892762498463026121155477954682976784731",
	"12314261817227551876673777186352972884847144237148169773300066404053441924532",
	"19869454329688183813243851218196625862680921049019496233616575272637276975230",
	"20326917073492686652690019138603910654692396590122884746951129061818467704300",
	"20403270805536666081472738304916561119325397964511536801752236086414818653063",
	"2865941730880218719188224311916978807415673142487507504983320505748719154068",
	"20614246027521726470902405957496110178017768563127335842405314212897493119848",
	"12060194341463088508348622863463208827312128863463014006529428845777217660299",
	"1128906798719793375274166820235650701301189774851381709919492584451845983197",
	"19670876372911656158743764425809421400123168087389888660308456184201759209723",
	"5647230694522866559497222129254930524469944430191328619422533907417776118543",
	"318629082509194371490189248876734616088516535434806492900653650176451776632",
	"13685970881538585172319228162662520285656571966985351768743970447782846353365",
	"8283840607829148567836919316142994745766280854211662326632930274668867638198",
	"8968895518159422029900464138741638511289476298837958524156654785428413265371",
	"10061801991000917366002570579819627134666386452411986168205986791283562415829",
}

var mdsBN = [][]string{
	{"16023668707004248971294664614290028914393192768609916554276071736843535714477", "17849615858846139011678879517964683507928512741474025695659909954675835121177", "1013663139540921998616312712475594638459213772728467613870351821911056489570", "13211800058103802189838759488224684841774731021206389709687693993627918500545"},
	{"19204974983793400699898444372535256207646557857575315905278218870961389967884", "3722304780857845144568029505892077496425786544014166938942516810831732569870", "11920634922168932145084219049241528148129057802067880076377897257847125830511", "6085682566123812000257211683010755099394491689511511633947011263229442977967"},
	{"14672613178263529785795301930884172260797190868602674472542654261498546023746", "20850178060552184587113773087797340350525370429749200838012809627359404457643", "7082289538076771741936674361200789891432311337766695368327626572220036527624", "1787876543469562003404632310460227730887431311758627706450615128255538398187"},
	{"21407770160218607278833379114951608489910182969042472165261557405353704846967", "16058955581309173858487265533260133430557379878452348481750737813742488209262", "593311177550138061601452020934455734040559402531605836278498327468203888086", "341662423637860635938968460722645910313598807845686354625820505885069260074"},
}
