// generated by tools/gen_poseidon.py
module bn128_t6 {
  import poseidon(Q = 21888242871839275222246405745257275088548364400416034343698204186575808495617, T = 6, RP = 60, IDX = 0,
    C = [0x1448614598e00f98e7ae7dea45fbd83bd968653ef8390cde2e86b706ad40c651, 0xab7b291388e5c9e43c0dc1f591fb83ecdb65022e1b70af43b8a7b40c1dff7c3, 0x2b7cbb217896f52c9a8c088e654af21e84cde754a3cef5b15c4d5466612d6adf, 0x2bc6b0ddbe1d701b6570428bdc1ca1bf0da59ff3bbbb95fc2bc71c0c6e67a65c, 0x123a55a31980384f3d20b2cecbc44ed60c38c11f7d20e9271efab9a905eefd3c, 0x37501cc8c9dc819309a769f4df098e588b01858bc8eb7e279e2883be9fb8c53, 0x1c2116e47e03a86bb11695b0a5f6dab6b9a460b1eb951ab01c259eca3fd47d51, 0x2c18213489032e85a9c8cb8e9a65839bfaed13e57bc0fae49dbdaebf54f56f93, 0x2ee8fed3d4d2c71a0429eafd8e5db1718f29e2227985fdf2ad8703c835b9e031, 0x28c64d8f5ed7aac004c92029d9e9bf91ba9436d1cce94b9316d111c70a0c1714, 0x18a01d9ffb747ae0de3e83c707f8b24f682c84f15abf571b34254a03478665e0, 0x1c21d92bef197e73b234e4777b60db14e642a56cee71515d54e1ac71cde72bd3, 0xad404ccbcb1e195897cb60c80981ebb9d66a6677dbbedad8b6455fe62d807b1, 0xa9b6de833064f93b6adb99af6c005945cb654cb7bd14c8b97af8b60cc1fb387, 0x13129e3f930aed6d47690331ff09dc5160efa58ddce2c3e6180d45bec3aa3a6f, 0xd7a614c8991508ab1ce4895813bb1c82f18bf7bfc9e280ccca18079839387f1, 0x532f7ec36e30041b0486986875c913a49bddf2f5af5febe8c31f2f4094ffea5, 0x6bbcb8e8e180201293e712f4950f1b0bbee808c9d64263c84d9d8ae155cb892, 0xf558a4db1a3ac07f61e2e6bee947f73586bf40f211ceb4f687ca5678a9dcb33, 0x2be140a60b5b5f2f8edd78a818a969b20c643e419bcf0b577c24a0d0e7acfe98, 0x1c49c4b9a9f09f7b9ad5f74ebacc710512b8e867bace27cb0dea06e89b96f631, 0x170c1a732721b12cde7f33e476a39a1aa77a81c06e2eac503847b00d597652db, 0x19c27d0e52f65ca34f4e31a068e49331c6bfc39d9241f9d4c302041615cf27f1, 0x2f1bdc5254f9220c1a731fc5276964dab26b385fa40b6b04bed9960e2543ba08, 0x5b42d2fbccbf4d39d2be9339cabe9d0dc6d921e855cd91154b639d28d4a1cf0, 0x1220040715a41ad59f4f410e0c05a42c5fd32ac52fe9d06f88188d71f61e0935, 0x25f9526526155b83946609f7bb9507dd4925ef871dee916d9144ebb4ece1343c, 0x17bfe4284299ae7740b6d0e204951e314a8a5d0452419147978a95b34742444, 0x2a5d4764021ca71d78a9674cb6708f1588d2ceaf3578c4111cf8b359eef089cf, 0x17f02dab745fbe3c081321fe5cef845e7b8d070b2514d29b2a7b7d89cc0815da, 0x19da62626db7199b65f4adcf57fa4a3dbaa1764a7bd155708ee6f378c89ef013, 0xf88e295fa2ed81b426c91fa69366a73edf75f39bf18634cd266ec4038829e05, 0x1fe31c5548546c7948fe4ee1bd7412e3280eff7d20cb09aa85f49f2766148017, 0x10fdc1613bdbf67f38bdde561b2f91e4cc48b59f98d643638fdc0afadbfe126e, 0x1f2618c2ebe9574508b9c52f0000e33ebfddad1a03fdd6bca6ef7f0093127bef, 0x129fe7fc3efac6a8ab23dba6d886f394da11f5953cf98e28269a0dba2a745dd3, 0x15afd4cdf1e4f820c1631d4ab85ca4ba3bafcfee72beade9fae60523102448e3, 0x1f2c74ba5c367e370d728e71e15b268851a7bb8b45528cb734956079ac99b012, 0x1130e1872d76f2f9369cf59b95edf9ce19f01fa89c9c36b26e09def6786dad3c, 0x13523d173f7e6badb73b63fc1c9bbdbee242c61bc68656493327533a5c1b1dca, 0x14da40d0af427a65f1841b5adc96538653368f7254cb5667ddadbbad7a574cd4, 0x91f96400e4297ea85bb186c17b304e82638e57fd631ff6315976e1a5dd8b86, 0x303329bf9031c5515b9a34d49a64bb6a0267bc7b54a0deca5c450277a002cdcb, 0x14ed47e55c1da1c2f05d3c1a1b2e6c18509fc8336ecfe9db737916e283fa821b, 0x1161f10b357775d810ad53bcc4a20d5add2b03251c747deb04ee94c565e58d6b, 0x17a8a50ae72ce707f22bc070eb992851ca914eb94cc68eafbb8a96a714eb8221, 0x1a6c61d795dbaf62f99250b37ec5df88645a1c153791db6312b932dc250e4f62, 0x1f8bd2ab8aa840664c4eee198c4684dc4b05772bb2a0869da6722b15f447a133, 0x1ffcb852a4f0027a9799f131cd74b98ccfb8cbc06349d8fefcc62f10c8fb3e2f, 0x35e742ec52f19b36d489c720f467ffad77cd53bc2db5dddb246b23021f79f18, 0x1dfaaee41bdf94d783aa29fc62b7ec7b55673aa818d305fd42d175a05f2e3d86, 0x2821378477a02e995005a5635088540945bd333f2d1455f038a219b8c4796b3a, 0x1db4a4d0f238a570b1061c6eec81c02f31ffdd4a7c19e763174f238d04897421, 0x14bf7889457b20b7a1367b34a3a538217d693b52426aff40a4bb72893b1784ca, 0x2ced52c2bf296f87e57410c3ec9a9483a796d164f6049127109ff0d3a9c08465, 0x1ddeac5805a7f4ada4d0441ed108e3149d4ce6584f49ae5bdfd46d6766eea334, 0x2e36b4e5e9c97b462304e8e2b5f9dc88e1c9f2161ba040673f911123f042ae70, 0xc6840d1cb0666dc59e89b1865275d8a164b447c5ed64347caee63502c238d5e, 0x137e2e3e89e71d461f4c9bc3e8f12183262a4d1db55c589b2caeaac01238f58c, 0x250932e7b0adcf2c84ed4bfb60a36b6b82e55aa94751157b1d45794b081c8aad, 0x170a7292f5634c06dd3bf09ab5c9c4ecd4b00d5ce2f35f972b4555391f16b42d, 0xd68cbbe77289e78d5cbf51d70f1b75ba215df4e7bd0149d10b2c50f2a4f3b81, 0xcaf74563b90525f645a6d2036ecd1306fa1dc680b49d9ce4ed24c9749973178, 0x20a7d1c0a27fcce78ffe372f4c58306b166f9456ed46cdeb255e395b7d30d42a, 0x623f3226b5470b2789b8a53040e44443385e96b9cfa0be4d35015158a468465, 0x1632308688c25e790f57d68a5350241242a56305347de4a5009ce46b8cdcb91f, 0x2de4793a6f99cd14e3f6642211f4d0b7bcfa361597c544ffcb5a567e9076f47f, 0x1d4d06d19ea1b09cad79086d51bde11725a554fa99559ca2f09f3bb73d728c66, 0x480e7479a66a7cd9ea61c8b28974389908350abc4aafc18cd75e33dd130c144, 0x30430b03368ebcaa91246960490bcf917d78681463e2e7d744bfb44335dac24d, 0xb57b37320127d4c50f269124b0dbdcb2b1f1352241a5d12103283e089c0c742, 0x2cf4890650d27240e195f60a4f698eda249b8dd614b23376b50178d2df6d2b8f, 0x1e221c5526898bfd12de86851a0d9703751a2f239008ab5f9b7d3b6911c64184, 0x28e07485ad7d992ed1a58f329ca12adce4ec693ebddbb2952e54d339f2eebda5, 0x2f44d64f84de16dc67bd5ead51efb1dc8381c84520c12854dd5ef3a079acd4e0, 0x50a76bc32ebd1dfe2be330f304edc7ace7167ab7ba1516f4021c62cf0d4fac2, 0x2f58c45e5d659a67d781367241f6c35d8cb46361d97b28947d29421c270594a9, 0x25e8da9ae0e42e840e04b230370e782bdb67534844325ba36fc7e5e160c66a74, 0x2fec734da20fe32003ea04f127f844724f38a368ba10c29544252be796040f7f, 0x288a6778f3a83988a8ed1727f15e93b4cb14f4e3a3bbb91dd6d1facafffd5eef, 0x20dcc6c75fd89259be7f406750b3db679a25a8cd2715d245b9175390ac922c84, 0x17f42ba10942df25cb8a541782a18b6fd31cf965d11178c7b04ac45b4dea5dd3, 0x28eeb85d115a904020e0c6148eec6603e9cedabc664abee764aafd455986ba5, 0xb1d7cecf3a79b2ad3fa298f6cea7ae95d80c0299ecc918e9f8c9c3d38d59d40, 0x440339c9764cec79c16efdb834a26261db8e3f12ce1cf722d23c0e11ff4cf07, 0x6ca647c29727c1962a002177da2d504f4b07a5f7eb57c79b88e6b7abbbdad5c, 0x2ea120a864f5c4093dd1a962e8f013c7b8ef778b04d2ba5bfc3cab28619ba9e3, 0x2bb737546c4aee7c0cc2ba87c1157e2a77c479ebfb5dc76adbb39cf8697633fd, 0xe30da6490625d33e79cd50176f568f9a2c28c2f449a2bd51a25d15686803a93, 0xdf7ca7278a13650b919d85497b2ebb0f71035a7c20430d4131d903ab7f57521, 0x27cc589f5bf585794abace589fb8a74a2f784c0990b80fcaa6944097f870e2d5, 0x2255c36a38c8735de45cedf452afa842332d33042f78e60c43c7455421b325bf, 0x133d9602bd3378d69f681c27b05bdffc98b7d86cca63d73a60caed485784d087, 0xe1548e942ae9d3e26860699b93727c817a9948616c93ef4accd981b1dc3d78a, 0xf20f0e55d93689fe09ec312f6af47627482e4bde0a1602a8e2c8d6e84e8a6ae, 0x2e52328483cb5b7ff2eb4e45b12e51b26232c9bc17b7292954c0a9f6bfa51bb9, 0x2b2162d533e059a6eda2abb74712edb3a7860beea95dd8a4abfc957660804f4, 0x19e0927715d1cc6d389429947fb3737dad733974c6b2e13e5b3d432519516c74, 0xd3a800457d77785636303b8b94f17dcffcb46048872ac9f74ef7f27ee573705, 0x2c974d1952557a1aac5f7bae4996616da619b73f441c4e504dc8fe9cfb559e32, 0x766bfeeede2ccf3708e1b4ff30714c22c1d434cdbe8f55514babc2dd5d97bef, 0x23dac8ea54082fc131e173ae55e4630cd4ca7c871b2a0a479c1e74e7f191e62c, 0x17d5fb6c2cb37010e3e358ab2d575376870ed33186b8eae49ad3b47e340a8d7f, 0x175dcac76d8a8126139b583ae38853290246e43e783fa6903ec8007f178c0023, 0xc4fd08fede5d221adb7abf549898c91e5be7e85bf1fd2a611bf182cc2e71655, 0x277934b909e72d3a3475bb1ec766ab7a38ad59b128303fc5002f02a65bdfe729, 0xe88349998dfe703f1b184524f9c394d6004ccacf9cb952896e8cfdb0b078b68, 0x1f1b2078b60b0fce07824e2a2bc8cae8ee673514b0070a8b45710cc78cbb9942, 0x2eb1559566c536ddbc316f6482d51fa340557657700f5b8a846e812a0ed334d1, 0x1c4dbdc335cf6764355208b4c9d243d34541d623c669dec2c3ba066bbeaf6773, 0x2374a6b2da6f8cab8e5cfe8d805dd3a2dfca1e8b7eba5dc8574021fd1241e3b4, 0x19dd342533ccc603a99738e3fb5a569b94ef71b3e49f90fb874f6161733072f4, 0x217d66db6c7fb3effa508800587d2eb3c6d03d8385132f2fcce7f35f2705cccf, 0x815fb8591fe01038cd3a3b38b236f9efca77c618d3bfc6c2a7fa89296c7e64f, 0x2bb943b40c2bd456a6c17853b1ca88eb0ff36f5974b2ff9a5f5093e9bf63a16f, 0x11a5153fce659513ee7cb9974ae6cba581e3b4cd14570c5709fec3d8d3fc82e9, 0x1b72bfd07635d8501b2eff8785a2495bae74c7653cf90e6d5c9f144426836df4, 0x14902c0700eec897ae178ba8caf850d793f1d87512bea0ecea39cf6b1fee233d, 0x9c138c6e0a616a49ff90d43a6b043f3b745b78865856dc4c1a45e2fd84cb3f4, 0x5b58a3dce57b281a271d69895052d887458a715783e8317e024a61a35ec10bc, 0x2be8d29525c0cfdd5e6b3125e3bde3bf558e55fbe867f024457a96765474d037, 0x61d72f78f1ba9dc6b4d7f7784225d6a81bdfc1b5ad6c24369f9c0560523d9ad, 0xbf18aefcacffabdf4112eddadca6145738b4803b36145bb9516db501a0692e9, 0x2e73dd105fa8b2ec931d8cdf29ec679e3a9801a93071a7d5ea30659255f03bc6, 0xf8440ef667c9ae81337ba5d8c927a5347de7296860b211cad1ecbfb5d3598ef, 0x4d303b2dea627b2731be83f93ac34e7d14d178a13800558ca7396395eb118f, 0x234541ad72040a70da2996a35269230c94699eef313a4d480508008cbc3d37c1, 0xd123f1e72d26b92bdd8fd73d14286c312ad4c23acb46b2e08c157104409e174, 0x2fb360776f0de79d7098ee7aa4123c05ee6b05a8be460a774f3a048e138545bb, 0x3685c079434e167276c57d3cc79703b7dfdc41c156ea1e8b7f99b6956a55326, 0x260af0e0fffcc9772c1631b179344566b47aaada3681eb9034c6f75c3705c1c7, 0x2862b41374f89b695274b33b773f2554916e2bff9ff672545fc2f49563f62767, 0x2a9912fe170310227189ea1e691d0362f18b38b400b0eff192ca59513eba8d5, 0x8e513ade694a0d8ac1f3ebf1a96440d32c713d5058e1224e070348c281f4a6f, 0x140a4a431e2ee79400ed7465978d84773213c628264ff80f21ac7a6b673d09ab, 0x296af4d019cb5df7d959b29d549c3f071202b4eba8b53dc5ee979ed143377927, 0x1832e284a7f4c81614882b6939fc0f185573bd2023e3e505765470bb812b349, 0x1a84d56a67bfdd3d965abdcd329aa78d4fe93434496f2d103861fd19d66d7260, 0x40cb82847773927d2aefdc07489037a9d1f7631eca75c9fb0dda0cb9dbde143, 0x10dcf084cc29cb7caecf26aa633bce4ed2b019f2887cee7b1a78f89d3fabe2f, 0x7edc22a0911ea214425ef542b776db23b0fe5817810d40c72ca98aabd9afa83, 0x2eea4ab08aec775f2148479ea36fbb96936da58ba48bd1d2d3acd48173aaabe7, 0x1e40c0e8257fe4a61005cdcfad148cf7f47d1b5cfddfaa082738695518245f19, 0x23a27809583bd1ea51f436de5443e108f69d44cdf51dc1f03e21948b4980b876, 0x2e4652b044dbfe40e63b6b232fcd5f3f39abfbd2051ee68adc754080d49250a9, 0x11e7abdb6ecbafc2e7d8cdefe9c7b9c50475eb475db3c2caf7f7d67f485775f2, 0x199d52350cc30e8c73821f802096f0e547a13551b27bf6b899396f63ac5cf8e7, 0xf575d6ee67cbecd98345624e032a37c859a7cbef30b3fddc949cd0978484101, 0x1c4b6f9a2ae2b418e6265acba9c96b06184d07028e5fb784f3475ae7772ff057, 0x2dcb5cf8896de39f228e157c0c5593f4626fb9bc225206383db20360abf0c925, 0x1340abb9f4e113186bdc26cbdf4bcca50b531a107f863ca544575e3cf870f8e1, 0x2368e692b72787cb8870ea888e714e006f59d2b4460cfb74c48a8cc73b1d1a5b, 0x1fab9add9baa4a4f56f23165775c6f2d922a7632a94f96374b7dc852756f54b6, 0xc7f7b82300d3c6ce3f8957ba1e4add54c4c015e20d9765d220571c16ab8680f, 0x15d63e86beacd93c6083688e5d9c8f3c6947929f9f1f99ab578a4c3a922eff03, 0xbe843ae5f9b07e52572178af7dae8ed05d36b12c0607862929355ea74023d9e, 0x1332749c523694cb6935e0963a07e81b05967ce1d950c0b731058ec92a7a0c9a, 0x25439408810e074c0bdd4598b9815fee892bb95ca51029ecf009bffa5b9b9682, 0x57e8d19dd999a918da29b0940b383ba9fd15db0b0f64996dff67feb55f9a742, 0x1e014e37e9b117cf3b4870d999f2b55d3534d0a6be98e9e357fa43f01e70a29d, 0x1a4ed24e6e03aebcd6bdb100533dc966597afe15c851b4b863f6e889084c6479, 0x253420007083f1aa863ad4760905c1039ed4111c9f053f27710452f83ce36a90, 0x2276a1441971709affe6d2a99320001ec45ec72155c575ddeecac0e32759ab06, 0x28957dd1218ea799fd3411eb19325853adf7ae8ae1281f753302fe7d31dfa7b0, 0x2fd925726ab794c88bd75796aa3e7f1e6692f2914cf802267ddf01e37902a008, 0x1cf8a5c9c76a84b147c8238d9253cd55b47c0c43d82966c4636a28674705fd9a, 0x373cbbc306e1bab9e7077368715e6230b4b2e2e4a1db9c674b8c359a41e9108, 0x60283d2fe7f23dff513d9110b3dc62448bc48f531ce0c1eab5920bf23290a40, 0xdab465d6d910740f33ef6cc0eadc71bf8119bdfd5a3527dc8bbfadfaa40263c, 0xcba7bcbc8224b2a8e4aba17977230a686cd6421dc0ca5346f3446b62439c4c3, 0x1e4365db0790c9c4f445b0653c466ff21db96c38b4076ba8bd68bcb4dea6911d, 0x1bb2dba2199a9ab3bc86ef5f9de7f6c5ca13d60eab42ced68de98fc643800a8d, 0xad3c1870c6d6ef40eebad52123cd1a2913d9d62e80bfbacae812e082021f9ca, 0x1b098c91e7b0cbb5c34588077c0ddf95300ddf614935630c0ce3a2627245308, 0x19fd5c0eac14fae7598bd4ceea3b1e2998b0c168493b6d72ae41b576e55b9c3f, 0xd4749d79cc163f17110a404a46fe427c6434f3fe67b7e7b4ccfa6ab95bd7e18, 0x1ebbfe8114a41bb809e0b33399241232eb940ad8728c8a516d40ada440dbfdcf, 0x2704e5b6133d9764d6d3f17d49d833223e3937f80eb9faeabbfba9baf4b4c1b8, 0x2165e1c8027305b1ae0e323571635e5d540d13d710c3f9a390b6913f14d035e3, 0x2e3497e4d35fda596c06afa63bc3a0f2e55d4eeba4aceb60e65081ad63aa8b8a, 0x31da4345eecd6db6c0f7b07c7815d7add1fe0546d738f4d79ab5c57aa841edf, 0x89ece54e47aa5c908e43e5f08737c1436967089006acab1c9cd19eac4a20876, 0x2f53c15e2aded33c47f55a070483e6cc7f3821fbf8aa40677d0552ed9d10d847, 0x142aa34f4b2e8ad0df7a21b3e39c00c8b0aa2857094801eaafd72befed077f93, 0x17aea4da4c7bcf0d7588b014eb8b40979dd2725eda4e6ace331982467c7ff2bf, 0xe970c19d19748d8c465104d8f02200363f9a41786f02f1827742b20dc0d1727, 0x4bcad9e553795642f59baf714a6bdb432fc45a0a0b77f1aba3a9823476df9b9, 0x242c0bfbcdaa76f715dbd4ba825c71fcfed671c1b1901fa484c87f810315d0ce, 0x25db1343c24104071023fb6ed34d9909078311e1efe85af0a11b19114fa9e790, 0x2ffe4d9c420a59e9cdc7c31ab2bf35187ca147cb898a3942deb3677786036a80, 0x125bb03af3e2cf18bbe6f5b590eb3bf8d0d1ba63be696483e98f283bc7cd07a3, 0x816be42745b7dbb4ceffe5b8e24ea60fd8b719deba50037ac7b75948745c6bc, 0x111160f9acf6ec360d1b6a712313a0dbcbe23e64420055471d2ee4c5dedb35d4, 0x1377978e1b1f6a8925fa8e7b7941bdf8fb59ab9542342419283d8203435c9391, 0xdefc1d8882166ef3ccde53a4f236fba83d384621937cee57e421a513d0d3397, 0x2f8fa5c78c706e3a5d4a03f2a7a3953046d7e94cb88a7ef350e67b5ba0f0debf, 0x1a2a957ec0a723da61c2134bab0bf17beb00e6dcd84690c230dcb9e58da94827, 0x1cdf8710995f5e03412b4a7f699532f9fd01f0ea167a8dfc1ddf37e2805addef, 0x26fd31471828c36ae36c27b748054b0c0c4fe5239b301699e3765eebecc18946, 0x775d996cc2c4456f303a2c1f9007647e11a921d9fea3f7b926143b99d2fa0be, 0x16fb9337708ca638cdfda91bd0daea6b97224ef7b2062672addd1bd18bb8900, 0x2c392fbe7d3fde42fca4f9478bb439331258255356f184af6f76f119054117d7, 0x187a2a3bf79a69fa3e5089ef9f1fd56fdb47c55eece77aa228aa3de1b486bcb1, 0x271a863a280a32641ffa33510b2edd278c98630359532f3e506b275fd5d20ce, 0x1557459c9c74c94aa00e5af69a1e3112fb69537ce897ec0c718958d96516f2ab, 0x2a8e26ca8d647d9a6388516ea9dcff89083d539e58168c2a50c6dae30f109f21, 0x21cb752194cf43f3b51942eb0040eba9de2bcfb1c2a3fae97924b710f26832cd, 0x2c26daf996be247acd6dd4acad60d38b5a471e6322188d02c137e7cb484377ec, 0x240176ee0e7982eebe92a68d3e3a38c26821acc0f5d058cf8c137bca2d26f1b, 0x2636e0973c865c1bd974dd78daaa8d0a84cdaf6be1ad47ecf2a0d18f117318f2, 0x19e84f4f25a799496041661dc5d975b681f6e06744cee89b7be5d9fde1744ac0, 0xebf89064a3af247ca1f36f6f3570188e271e0b326c4fb26664e89e1454ca110, 0x25c7e97b475be00e8b559a38c452364f4c9c531fecb8ac698f7fd73ce22e71ec, 0x444c99e592353e5aecaa302add901c14d8c55270a160afed4429ef5598ad74f, 0x138db8887830565f2693d0e0f02e4e79e144967f0ba53b03519aba764b5c994a, 0x24d40f462114fe9ee02aafcf74b4fca24e1ae365dc75c3b52bb13cbbb2f21edd, 0x21e65d6d8ee43760bca40e730b5df4c4cf3a8a732db148f4b2951b4c61d68e8c, 0x248dd79669ec09dbf0350a15d6c75c6a9bdaacefca14d51300978f13d1ab6d1c, 0x2b8238c1548f9cbe29fd35cf91e7b48f0ebda7e639edf69fe8d5aba7924d5362, 0x2439fd239257f38181c7be3cf513f1bf7235eba94f6b8942a94cbddecf6f62f7, 0x200958235281a61ba2c4be0aa3282a18c74b6d262f5de7c2e33d2bb3e893dfec, 0xe1eca5df88ee5f60cfa7e1fe5befbb719fad8211fa9b2d02fcc233190c17f12, 0x26b53427f9b3ea2c769d9c660fc60881a169c12732d001b7158ee4b1b842ca24, 0x20f3b3f4acafe9f8af3e06661b3a8f778fa2812522b9d70a67402cff8db2b1b4, 0x211e5d2b39d62520a7a627ece8cacbac9f97506def4ec286928ba6c27d463b17, 0xbb743ee34802129c556731aed9d302dcd085313ce572f6242d13832e536b4b4, 0x23cb2661b488ee71e4c753ff23ae4bd25d8a44094f66b6532977e22140eba5cb, 0x3a35aa3123911cdb4535baed3359f5f6a5205b9c93ef31d35323a47807b8bc9, 0x27803848a0aed96a93fa943b6635e450217e137f4ade74a62d7917322714b697, 0xcb37839c2c9a7ff79884cbec75f41e9be5e47c76d61538231bd8162996d6f67, 0x1f0026d0bf1f8e1dd5423cc2fec1fb5cdaa1ecdc4c3cb218dbceef77c00d2f93, 0x2a7d7bb970b8a6ed2ee66fabbba956b6da3b100f5b5fb928eef42f9708273c9, 0xcfd7f4215e434c8da17ec3258b0bc605ad1ab2e90aa494351e4ee40bbc491fa, 0x180b11b720622a156849dc6f7f6e7f571659be69682230c5ed9ac339700a7cde, 0x4e96a965bce3d3a0a24a4a457c951582c871349ce7eee1aabfe578a94c65011, 0x15931f782b45f7fb656f2cdbd1f7705c353a23fe1d30a5a46a1522ed160df3ad, 0x2e296e57c97a5309acd26febf55ac963a5444c1c5f703ad88a0d7b97b9dd38b1, 0x26157bceb78e846bbb262f9a1e06d4271bde5a5bce8f0419952f97ffd13eaca8, 0x2194eb89847d6b0f1897f675f19c0c56b61b13248eff3ca36e34fb9d1c79ee43, 0x2350bf35477656899151ad7dde96ea7857e15501447008dab6b3d27c8ffa274f, 0x1a486f0ae591cacdaf09c58a49c4d1795405435340819e003f0469d110b7752b, 0x1b56dcf76fb23cc4a834d455a4065e133571402b7df309d59bc3105d42a8c301, 0x1a749d7964af0b7202913ef204c653f2b4bfb65ceab7b685233ab59ce3bb6925, 0x18ae590073f969696af762ffa4e8f0ebbf97f8cc787e37cddd1f321be3beadbb, 0x21c47b275d82dde6460d5e769a99421144b1c5a9da59294ade9cbb317103f249, 0x473ddbd52e737e527364e8eb63207975c38d5fd6cc32b272102b082cd1518fb, 0xb12fac95b6d3a881d892657c8424e645ac4e6b00515f902d594574302b26e02, 0x8ae7616a260cf6657f8f73ac284588d2c5f07ff425d837aa7cdcef63e3e2103, 0x39daf6876280b80e873bf2a32fd2834a83c69757badd58a888ef819e926ce28, 0x25e7b1d7470a3c75f13f0b56546c8e09f2d8efeff06ef766f9c783ca869d130d, 0x1e8fd3634c3ff764184d03435f98584b11b5b15aeb9c75262da3f1ea2c2a9e7a, 0x241dcc51ac37808a415dd1e3c281f05aff11789dc0cafdd77a35484e0993f9a4, 0x1ffc3153c56ef9755932cea2be0573749bdafe1c4fa0781a4b8b4078ce9d7547, 0x17630d62d9a3e510c88a4d43c360f92bc0fa00b66031adec29bd9543fd3a17ee, 0x2980400edd1d74e3d69db5458d2ccd5fabdb236ec16a82a4301a0ab59ea4a6e9, 0x3034fb24366123ec6dcafcad35726dbfb16194c036dcd648fa69439bfcd00cd4, 0x1aa7e8f4189ca9dff3db2ab7648be0a2392995ce46041e04680dca8ad7232df0, 0x1fa195f834a69e62372f60eb497da167646eae14153d803b39dc5d11f5d7800b, 0xf23f1c74d5fbf6195ad5a6aee5e56993c5477e8453f5b93a0d7bafd333036d3, 0x16556fac9348a735ab50aa089c97151b3caaf0a20a34fb9d9370505a1515729, 0x23d92b793648110fc5aeef0633f0c77cacb0dbbca1879b8a6f6e5df445e5f70b, 0x2e4c10ec5e65e2f239bbc43c13031df2686ab40fd79a304b05d611b823f23b73, 0x12418bbfd77b63ad5e16864ad9c32ffbfc5a3dd9b78ec2b79329fe5e0a8d2953, 0x1e4a8aace15abc1d5b76a9e848431d2c06a78f72b6bebb1293e6c58e5185696d, 0xf3e96107decdbd6872c20ea09acf92cdf17a3ee1d1331488092d96176deb755, 0x12c3780207f395cc21deb0abd951681eea32498ddba6ce897a8f9f0c2357067, 0x13eab1b4e672ba1b1c1bb901769301f1e5659d03ea10c61de2477ff0ac221421, 0x20dc664abb20b7456c06629ce37a1ecb1a27a4e8b24e31b48b9c4635aa30323e, 0x2c6b1e2cfea78e2c36785e76a8cfb1b057e9471f24f5b391175c3decb01e000f, 0x188c926255f5b7af3da96355729c2a8670ab4c2c70400481b2ac903740e0c5ab, 0x2f9913208e09e3d6e9e6fba6384fd076ab89f2662976e3e30e0870bb30eb54f2, 0x2b33803d90889706e714f720b5628d26fb60b545a1f3e9ce49a6ae912b024086, 0x26ccabc10eb04327cb5cc3dde2abb36f097086c97e738c133c9f57077e748b09, 0x1b16ae0d7c54408cb75fd931f246751f2b0c3dc20d79e82a2531b76c22b4d5df, 0x11d0bb461bd8af2844f49f0f840c94ef9518b2511344742d1f5438fe3d415ae4, 0x233031847b476bead0118d3db338e89133ec420d673e504ad647259df655571e, 0x1f84e97895bee438eb3c92dc9b1846c9ad29c164387b06aeb6ed1841ed8c4dca, 0x277f7f9b542f0c2bb5f45bed054f09624536010c3cf9452d2273193327f801d6, 0x1efc9c9069e5068baac13d2e6645641b7d27e80fc23077161535c44682ee57a9, 0xd6ec477761e2efbac4f14b3bf3d5257a99e64c3f25fe104faf988b20fe5ff44, 0xe0e7d7c5501999b7d16173b59b7cae1f203bef21aebf00251881439ccf93013, 0x217bef2f4f12c6dcc91c2058a23391cb77de53ca6e44dcdc6ea3d36fea326ea6, 0x5780c88adf01531b50f817e3fe44447d29b35aa8a389c71e8cf1226acef68ba, 0x18733887a6b2b3b4c90d8e4990196e23445e47d7ea5939ebfb89a3ee3d67b4bd, 0x20bace63acfcae0b1c9f2bee24b8e9da85ba597d37b0905720c4f15db231b07a, 0x166ea595375a6786ac527ee9eced73ed6bf550876abcaf3ac92b42c808b00d8f, 0x304262a9eff4040acf43e322d6f52676ae2f853ec2e7a80db00c488cf917c74e, 0x226bac7050166e5f6db78cd0b12d36f305b6e8c9a055114ad7709e6f57245b6b, 0x26b2f539c573829f6aca91baa954505bc5c3eb4e1df1d638582717fbdf2388cc, 0x6a0fbf4cd52e93ba5e4c6c4af65db02ee96297f8ad200f2f1cff252e769b551, 0x2cb9c24112d35341aceac88360fb528924e58b6ecac321b9fb29e6aa3368ff23, 0x20e88a4d607526dd07fe08a3552a44669129eb87fcc0b13aac8fe8afd9301521, 0x1544649a2bd73e3ba72f396df91dd65401dd8faf51de325fbaedb9d536ad94fc, 0x1980077457995712c44da7e17713258e3f8eb354bfd80ed9eaf3ecbaf6960105, 0x25d1d22ff13e7705d3c085f97fc4e4f6914b82ffaa5d2091ec64dac423765ef7, 0x2fec990ef556efe1035a464ff5581e74067445cd54abcaf6b8c0399fe0d24cfc, 0x1bd9563506d9544ef3e4830e13545012c579379c2dcc1330416c4ae49bc4ec61, 0xaffcd17ba6003c56dfa85571fc29737b225a80d480e7dd7edec01f14f23010, 0x23670dbaef966881f07f919a2d883128c7b23cf767a477b2b2e0762bc0dbc18b, 0x1f93a532917394c7e22fd17abeea6389c66fd7ae2dd9f02f860f6d96947f0edd, 0x2de42e9f537b7d61b0213771c0e74f555512be07b6a50934734e2c5beb40be37, 0x25c557f45b99781cd37d3bb22931662a67f78b37782c885b456bb96d55e88404, 0x2074c8b709705c9888538a7f8a3c4aff647731bd16f8e254fa74ea9f2be7662c, 0x2738355956298138949e442171d6a4e4b74ef2065740db7cfc3a0b60fd573acb, 0x13d36ad0a4ebeb81969778649659c65cb7d0c41cc519871fdb71a9ea6a0caa56, 0x8a2c18ba41381348c1acfbf9617716806b462a1691bc2e343b79b8085e376b0, 0x59092fc395aed285807bbf557ad9a1041f59c079822b1088457882fee7b612c, 0x161924151b5a5ad2d8cac119522a991a906f15e8531dc70567f6b28371cc24e3, 0x1c68ca8f7aa17659075405ef6341b8e69a298b9a4d72f3bb854b309e4ba87a1b, 0x27f5d03bca1c8207f7239a4b2cf73ae559a15aa37e7bdddf3aab05eec5ce5592, 0xecbff4846962a975d347ea9a8fc465fb46861557622f2c2564a7e639833c169, 0x277c4de2363d8b5b456cfc5a7ff8e46ff2ec8daa59855f5ad64bc0521f3ac567, 0x1b11862c52acd351b7a464793f4fbb57fec99f832b63226f95d175c8d2fc08b2, 0x6a719c584c74ffbdd7218eb565cb4c8bd86c92e3dfb3c73e1527201aa51234e, 0x230e4adeecb799877f7ce9a58c836b99d533584a195c1d77a313abe1c7d126bd, 0x10b109b864809c4767a133cce6cbad6c88628173b8ea51e8cca85830ca7de522, 0xe21117970dcfbd4b1526b253636f377538d3b4faaeb5a8b24bf6200d14cc591, 0x2667349978401362f6b17939eeb0e64ff55607ebdb35c7071db46bb3e7ba4778, 0x5000fa5fda505e029a13bfe304c267b0d86c72c039babf6d3ff02ee246be02e, 0x264d9e094aed5f41a60242220a34a284089087b2436a9bfce8174cc9be8c2e20, 0x8076f9c4743de6130ff622cf401edd2c92f24bfe114f3c5e724891746315c47, 0x132370abddbb0b1dd57f2a520c25336bd7cede94b95bbf5c2151d6d88e641b64, 0x8ff1116b7a227bfdfd4465a67890882b615c8c4c17f28d8d24958edf602ddcb, 0x2bcb0b0db8b9e3e02b7e9c1c9460fdd9c6cd98562332e648d8a3e0ab94597520, 0x12ea68ce6881becad7f8a6b117b03ab976f7abd597f903b0bf230d20d21a943a, 0x27439c98a76688067a097b19b6fdd7d78d5f88e274e0d8fea5ea6b7406fdda7f, 0x2f40d0ad05f5652e31ef9440ad71ebc8419e393493937f05f00499d02a99e36, 0x2fbf04284327ee4f680f06bd390e309d0d13acc74b9c5b14b63059b8cc7abff5, 0x1be686d53e2a8ad57a828b0651425cfc6978c7027edbf247f6b6723c21df86e7, 0x2683b425e85a508f96852f14b4220fcfe9f7ad8b17bfefc0e348c47ca78bb57f, 0x16dace9b2e8012e31db1c7ebe672d86bbe61a1aa3e1693e0eddfc0de0a9dd951, 0x27a321f8c7d3c9022e962f7fef2e3c848b4539dbb75aa139f30430fe545bcedb, 0x6ccd7210dee1d6b0e22b79e12d19082d8078b788d71007b95e7a774ed86a651, 0xa41dd42221653752bef350f6d74a917b6cbb1fd76a3a12166f4d0be978e4026, 0x220a02881e4d47ac94d950cdf8386274d1782e27cbd0d845978deec91298f165, 0xe2155a545fe5f3cbb6397606589eac19cd92639339c6b017298a4ad3408b4b9, 0xf0f19c6291e51546a267c60cc774e5fb9d088bac530782d891ec1af4b847073, 0xe925bcd1c6ddb4a3a1c67ec8deefbd40c53c0d33e7aeef1b46795aed5943c9d, 0x2ad000b1748abb812cd6e5411286b9ff3ef0a5bd3d259a36e45ef05b9eb5beeb, 0xa65aa232d32ed6e8de63d1cdffebc2f3fa616465c27aaf97e8cd3dcff648652, 0x263d8470ab4b1c61d74d8e896242f4f261dcb167a3a06923893d7cb2c93d6a1, 0x2901d946addc94b040fd58004d9a5f8cd1926540c7a8612cec1c58cb60c2b3a5, 0x1889cfa8209f4952df9022db9dc583b5717a0696da41cee64937d0cd6321e693, 0x236064d71cb6c64c84747ac25fcf8d881502e5f03bff87561b85a116b1f39aca, 0x2ff7a174ffcec29862e04f5dbdc73ebf3661570033576290c0c1f6cd8ced27ae, 0x19e724a1d742cab103455f0040edf745a2696a71084c93e322715450dd4d6f5b, 0x3eed3892b6f0e6c5da1059c5f3793985835aa283500a8129904a94c87f161bf, 0x8e2b8273bfa30c1ac850306d91e468a9e8d05092aee4cbc80c687248463ba30, 0x7adcca76d8337728839a1b6ac3b3ed42afb87d72af98f52f416f2ec58b28cec, 0x171ef37896bae2b1020a0a5839bd51784ce11bb4237d548c171169d32fa19b40, 0x20ffdfcb86f4d005064edbc296918c332d32fbeff1729de5056a26abbc3a35fa, 0x8ecd7a6f1735eed86baa094e608f488f38dbb398fcfed4b994383a0ca8e4647, 0x1c3f5d86e5921fde9890189f1d8c618754288600e6928bc182ac4d5e4c9f0ccb, 0x29c61184ed9d460f337558a1af639aa7e3c0975e4014ed8ebcad4a25d51eabf3, 0xdefd45b28958728228adbb2dbdaef6a5e9b1a64902a734f402b8cefb8ab3b56, 0xa74ea22d8a09336060610179ac1d82fffa9492df76deed4ea60e0133b0811a8, 0x3a37bf12daf1400d297ac4ac13ba24c17dc262db16c8523deee4e0ccde9a680, 0x11fe1790d5abbf5935ff22318e4f7ffe69966ada2f9136b54f830eacb0a65368, 0x18165842f406375f2346686915afb14bf1fe0564c8858ee3bde0aba3de5f68f, 0x261db25e7cff5a9fb72f276b1f9260b667300fb7d361b50fd5c0e8b6995b05f9, 0x2a3ac3314b2b66e796fbe36df778c5e46972320cc43ec807048826b6704ba7c4, 0x23caa4b80ecfa99e9d3fea2bbc1dbbf369d1bfc8937d03d074061c30fd8cd76b, 0x27db260085e224898df145f23f635f2066d8e4e124e581e8c6261929b1dfe107, 0x274f6c5fd34a784d6b915ef05d424ee6c0babbf369e79ab138b8167b5618ec7f, 0x2c3a29e13a84d26a0911c9289daf1aa4cf5840aada0701d57e23dfc796da6da1, 0x1ea210f2001a334d3e801f4e53270d42da7aaf317a553b4282aa78eaa2282e6d, 0x254dbeb52884b699c1ba7fa0d6e80d610903b18a3e509c36351ccc3b024946e3, 0x59e781d65896ebe0e4ba26dc2f29907f47bcdeda4a2ca2c713d8505ea31fd5d, 0xb5b1cec63d42d5e615dc269b885a24cef303ec78c972dd17cdbb3e915cc4ffb, 0x2a7c015e9c3b2c57ca8b7d26d39a1bcc85d6ffacb7d9fbd66d2a8f1d64ed0c92, 0x29b736b911d71a79cf63d8a6f786f11bd5abee24161dc567a7c851eae1e43b51, 0x285745a90a7fe3d09af5a808704bc69c6f1701e573912df5cc1e265d596c4141, 0x2d901b8195c3c96c8c36eb99fec0134ec2b8304ae810bd30da554e3080826715, 0x1905d3518355eaba7859b591ed7b8c9c253980f0450dbdf54d7a7782ba058392, 0x23e813026fc0b80064d19b5c5428942fdf7efea80bfa8ec4095272bfdb7b4c9f, 0x23c0a19a252c87e6b1c1c21b1a79800200c3fbff3e3300e7e5568071de9efb81, 0x11c4ae607bae492413bf62cdaa2c2868ed1fec6dc0631b067ca60fab125b9e2a, 0x2cd055ebb7ee4686365dea450f046ff62405fae1b1afc9fb01707cf81da0e3b9, 0x53c9fef2e021fa9a20fada22fdea1505b58a3159bbb47337dbf791b215b1452, 0xa35bd74e87cbabaabe89ad1319d2c9e863b4c631c21938c9a5395bf97872a9f, 0x1c115056539ce20cd5a04d1a5c43e2b00fbe83b25901be36f5ddc4666fc383fe, 0x242954047e5772fd3bded590ec8beb4c542f2e264c8c3e284cdc473505c51a90, 0xe2abd315b47c0dc93849c0cdf267e811cbdbdb200a6e7c2b67edf7cb0174214, 0x282b37020c0890d751c3fd76950d8068668e1dfeae621dd552d2de887da2ea75, 0x28933852266b52d9ea6b5bb923d9d94f2e5a5be5c778e75e07942c234b643bd9, 0x99ab6765505ba1198ef140e77b7954d4fbe79a056ce72bace39c048c00da3cf, 0x2af211d8e0ac2d8fda7f849b8f229a225c6186b55762c7a7b2ae2d1dd85c57cb, 0xcd070f234014a2809ab90c71c1da61e98a96322fedd99b6aaae1ca104f3facf, 0x26793e2abc8d3c30c60626fbaa158f263587d6bd15833d448b116264b930256a, 0x225be36ed0ee85e1f845ada84e5748a56699152113ff61b5056b6d8bde60c19d, 0x2174f49edb02d5154d2beca2dc92b9cc595383da1fde8f09e4b5ee3ea5a065e, 0xf64891c2c8b020e46c3594cb758f0bddcdbd09bd0308816fb41734a869872c3, 0x192a84ca2f99d36991e2d2b1deff3989d1c156c239e10e9f56140e1854576067, 0x29dfcd7b63f05abf2753a8c341d6b7a60c6243b04c9a1b8b3320bba04a4d4787, 0x1ee27ad6b9b5a867733afc61a2b3e76a52ba3e4bd5e657ade91fc038819dba5b, 0xab4773f150c3f8ad3bc9538f43cec395a7e3731ae973fefeb623a09217e64c7, 0x13c352a02f595186202cb0b99fa58c5542ab67f9b6d3a0afd103deeff6d80f41, 0x2a97cf2c10c4bfbfd299f67c52a169f92c05b7dac56a41c4dd4fe87c8246ce14, 0xbecbb47042bd7f8c9f6bb422162d1aed089a28482f7fd16ab06a13285fe702, 0x8e44da21d738691b881757ef37ed29c5bd9f7a4450fcf53290a92cc2ca2176, 0x2b205a8b6d4b7063d931f3bb5d3464053843fe7fbe4b83c17883f86527882a18, 0x2d9e32a7c90556fe108d255ac01e75df338fcd63b2bf84c19280d427298863fc, 0x29a322a84c25bd2ddf6e2e4200228d95abd6349a02266ac1dbba520738ceca97, 0x678c9bfc6f2df012f4fe55e33bb68ac14ced1df0d02152792089d046d828c43, 0xfaff3a5e7425794fe20a7e0eb615b8b1760394b7f2304286a3ae4009124db23, 0x1f8f5b611af9feb9cea86c084058120553e404103aee213f5a41d1d02541c0d3, 0x160875d8479602f96f40acc2d042ee52c1588b6a29de4284965a6dc6c930ea07, 0x16d87a5183a316a1d70afc951efe2cd667c77328fcfda458cbf5fe3045f46d9e],
    M = [0x124666f80561ed5916f2f070b1bd248c6d53f44d273d956a0c87b917692a4d18, 0x11924f02fd19b09255aaa1cf46ea0518e3d7bfeef47421609491011db0bd0b02, 0x247fa7f022304a1994ff505456c2201ef9b717369498d3ffce446601ed9df845, 0x3fd7b19ef2c861f22f77ff810f54e277bc94eb76c02d79d986be3dcdf051c3f, 0x18bd41239c3e71579a677443ecffbd555a81eeeea69352a68b67c8563c0c2a06, 0x2d78c3a5d28de9ff35bf0a257635196e5730ca7f40493277078cd75da8b4ebdc, 0xa514a5c227f4cec95dfa029e8dd124c34895aa46bb27c0911f3780d5015540a, 0x192e16d17d956b257b85a652eefdf2ee09589eac5be80915775723d2cb1da06d, 0x298ce0c1e3113bb935c7058e7772b533b1aa9db0c0926bdc8917e5605ca3ac10, 0x94cb4e83621afd271e41bc71727f0158ebd612239ac9d698b17fe4be05b7fc8, 0x3d880395be93c27d649af5fd142e76b33918cb8841d5a28173bd5cf7d328791, 0x28eeae6b5866ad68e443bbaf91680db7d7e2b3037e38fef61b42cbccffceca81, 0x278bb49a7b4e44aea46eb0f882cb692801a6e60fdd5b5c23c63cd65ccce4fe0a, 0x63edec1bed831f506af8db648d6fdea145345887e8bdcff109035a1d9b674d7, 0x1baef1cb5509b526a42061fb53657f99b3232500e855192cbe8c940e068c475f, 0x1324564ac7bdf9e22164e9858d7fa8e368b165eaea3daf4eb67ee59c0df2e5d4, 0x5761b8c6aecb1a8ca4ea4dfc2c8376064a4a8004ceeda210a55240562ddc13, 0x10c9e283159d58cb4cb2e35fde83a3ba1fdc28002ed9963d2a99f186178a148d, 0xc399e9f67aa40707a203feefb0b958bbdadcec5ca34901d253d026a2419f6a2, 0x83f0df3f1a0351d0330ec3ff602ca8cc353b7f6e762c7107184cd7b423449f6, 0x1a6764d5943fc4a720b4c0a19fdb8c711984307287a58b9b5f9f5d58212cb263, 0x11a63a26feabf87fa66bde66cc25a922c96382d76c6a7ff48f1537beaed683a, 0x8ca7b64657c3548f32bef5b63ad24288a41c0b251099ad27f9434307e3e64d4, 0x1998270471e9361955446b0cdb8bea915ec0675f1cd648ddcb04303507a4489, 0x1d6b3d5f6ea369c26f825d2362933eaa31ea35ec0a77c1fbd9e01ca1523e4432, 0x119ef188bb3dd0d32306976c19941e8664be687e7a69692da27da215a6f06d40, 0x2d9e0ab5c06893dfdfd03481381ba86b6e6292df5609d71f2c64b2d9a79f809e, 0x25f16631bf77060f7ea34087c025bf135784319ef08cda2e31419ee0a529e658, 0x144c7a11da5a7c5dabae3f33fbd03cad86d18bc594c79a497ecb9894edb554f1, 0xf971162627723f3feadacb28b0c104cb8f74de508752fa8d7c0db2af13de8ee, 0x24be510095436206dd0abd0b0cbb95c883ab304aa52598b1a69306ec981a688d, 0x211610e2ad4a377426fadf7068b0c1a6c299a164c1c1a603eaed944870d0b9b9, 0x15a67d981041b1f6f09f3f9ebefd864e779d3af08157786ac077505e50ec79fc, 0x49327fa79d28c12a2c82406947f77f06775b0287468b3136877701dbe7c9598, 0x230940dcc5232658ff9c29697a3fd416d170e8c998f1aa85dea0c42d79f951aa, 0x1b121c049cd1159e289007e0c9da9995cc4bab4c26fb888ec3972a8a2e656964]).* from "../poseidon"
}
