// generated by tools/gen_poseidon.py
module bls12381_t14 {
  import poseidon(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513, T = 14, RP = 70, IDX = 0,
    C = [0x525cfe4f075a0bd2beb595fe948bb09dd01d77a8b5a950c3ae54f9d3328ff3f7, 0x7307cc9689dfe346c0f84575b8f3a0815f3c8e79ea97738d21e378676afcd187, 0x402d5e42242487b280a219d3d11271b724a7bbf01c45c7835b1522f7cf4bc2fa, 0x142c4a0b1ee564f90e62649cda707fa8e3c09bdde9f7923cc31faab769aefaa1, 0x243866d5eac4e8bf7c0ff326fbc474891b974ae94e6d551e25aeb8e05f6d15f6, 0x12e77348ab17574b125fda86ab47a6b88e7b136dbe70d9d41735942b2868f4dd, 0x1d5c0cd4562133617b727f72dc727abd8b89c0edfcbd9e6236bec0a6f52592b8, 0x1faa8ffca758c5b1f995e28df22cf7f2e4bd6723d288901c2eb1f4eeaca1ca0a, 0x6ea1a973713741d2ff8b098f71f2ea19ecc108a466d1c9142c8b2ff1138ce74, 0x2eff6eb7f551ef1ed889c01d2105416a01e8d50dc1579bfb675950fe70228066, 0x451e29cf751fa37cedab0bc1108631e438d50625b0b5a3933b2eb5d49a250d90, 0x675602692727061aee2274276c2a171d790ffca51a319e653e073a009901a21b, 0x5f4bc19c30df6a1af6bd519bed25cbf367a70002c183df915c80dd4a4feaa748, 0x300d24b4323230e53a247b7ebcdb32f3de9058bff8d878de4fec35125321440e, 0x21dae9cda715f4d56ab824e9c0098f6d34c78d6830ea4b3f04ff0a5e2fa96a29, 0x5f1e3e4966f136470bb1449f4af579fe72fa91b926f9e04b31f3b46012fc2b3a, 0x5afa29954f2994c16945d8a02d4fc9cff1ad915b1cc85f2ffc8b675d34efb7fa, 0xd6880e7a024d0b1fdbbc9f08567d6fb535344051639151a54a56786e07df61b, 0x24089f0d61ab2c36e9a8502cf33599cc0de54e335b7cde27cb878405a4d2a23e, 0x10e5fcf0b6ce7c86946b81ce7c93986b2a4899b40c0890a044ddc6f2448f2f3b, 0x5eddee88a3a96c9bb4e9f264d67ee283aba3fe62f20ab860af65e3fe2511df3f, 0x2dbc08962b84aa7704a8f33e889b41629a55d0e4e4d70e80048c01ef174f1d1, 0x60de73aca61808420825987f51eb16f292cbfdb9618cc0a9c86ab80ddc3857f6, 0x6bcced8e2dc37fd46e2da72b6f4b73f7ce0975f26494dc29ed8e517bd71525d6, 0x33c3e071b661e0b01e658af9eb24b4c0d7a4a8f4eb06b3e83c86de485052be62, 0x399b9ffb144fd3fd19c30c01116bfab51983151fe02f292de782d66256a9463a, 0x7065cba8ef44257796100089494afa85d61ca5e3a034b3fd42115360eecb34c9, 0x3eb8b633b998e5cc0b5bf29db9532d0ab1653a05375bec51c074a3a89881936e, 0x4302dbfa77da18a1b7290f376a2246e1d8806477d9872513bdb83716a4494f4d, 0x4c5bfbb99ec637a4a6dc7289f4b3337a9691a6cecc1e0bc44aa7927165433b12, 0x4af779c172c9f5aa9ec79b26fa6c8f1529001c137c2c6c7ee61547b4581fa97c, 0x3908c66682f0cc70ee8775850b0a7168081cfd9017ce14ab4df5b2e833ff1f61, 0x8dea45cc9626d04e76d2dfb25fd96af63419d802d6d3c668e6103c1450925d, 0x13bffffbe2cc2d3846c61185b84a477f4fad1e2e29eedd230e1dee662ffe3a2e, 0x2bc9c65867bbe4d5f1b63eb9e4763eed838f15f7a441bd98094a04d63d2e2824, 0x552d3fe5f385b4ced26494608637ef9fc361b19b2a773123e7d541107e9fe0a0, 0xf4a69d845d0f030ce873aafeeb3e4f5b931bd38a3e7afcfa1675a037367fc8d, 0x47a31f3004acad7713bd69ecd5f93ab2dfa1a6d2b889021f0750210f97e1eb2c, 0x22ccfa17983678c35be306761adee6bcdb3034a7f05f4b6d67f903dc989591e8, 0x361b730ea0c5d24bcf3ff456556046f0e7494f772513a0265c56012e4ad3af93, 0x1f19d286f10406c9f0067bc489ea8eea6658334a33965218e3367f87edd3213c, 0x24803432347630127cb4da3e3a7d99b418c2edaa06dce414373af84ba7c3449c, 0x69bacd44a651205e3de63ba386ac5232345436be8e46fcf396162195b6d2716f, 0x15705f9560e3dc8af1991ba4d1770bc20888f81b158b888edb3e5df18ae324f3, 0x607adc75c689ac77be664e1efb4be69bc9fecdd834d2b1d9f8431ea583ce2b06, 0x448f9d7176b3d16b95f1340bdb46270d22be8a2a76f8b6237e95774d7c7631b5, 0x350cce9939872e8b223b3f690bbc8f148caeec816ff062e333f12051e03e5798, 0x1141ec7de3e9467a3595be82c0d62d7be96f52fafe0f4f3429a88a0840c14449, 0x1cc9da008667577459c416e85c86b4f89fcd7d421c7b05991b07efc46368649e, 0xc9aeb77b73ba610aabb05675849d5960a5ce148a74dc5ad3f053d3813b05994, 0x1aff73253760bbd2b9680f3fdacb5b6a26d995e8760c5e4e2aa5514943c3bac9, 0x6a1e2f69826cb1c44ce995f586c08b34090d2b1879cc596bb78d73e463e0c6fc, 0xa7b8ce1a4315dda59521728d9b1a0bed1c169fb6398687fcc471bf85d0fe805, 0x23c68fa29ab403738f855c8c5db6d580f4b16694246eb20c1b2335415d9607fc, 0x330ab88291e4f9fa612005772d41ed50f1c46fd6efa0649b633ac762f1bf528f, 0x2e0dafd903d2a48c9cfa869177d353fd15f4f5bf119b9c8e701e0db704217f78, 0xa008438f1460253519c653a6f859ffb33a6b7b38746bed78a5b39d9ede53d33, 0x48ef15393a744489ce39c88dad0a275f8905a0d2315823b301dcd948b5a9dad7, 0x4380632e567db622aac8cba20461f7176035a4f08c83fb9428cdf533b699ed98, 0x93122d5614fdf04692ac1dd4218fc9b195750e05b6a83f3d08884ae3002e9b, 0x4973ecdee8dc1285e7105623f556b3bb2f210a19885a71e2a6808d2d49ce0d40, 0x6a65b2e65b9d0c3f0d05bea6c91ac6d389c189ae849c41cf04a164b71ed067de, 0x3297620aa02ee401de19657c94d7600538f709047d1712ec7af90e2bfff1e730, 0x34528db561e8a8001cc73e25af15b15aa44387d9730bb5ddf86f322dfe03532e, 0x33ed7df8fb4531a276a9dc598611ff2d3e095658e8963af51614f882a00312b5, 0x525dccf8d922fa311ee84270a2ac68acba5afcf5f9a325afd3c939d802e6942b, 0x5c81e9a236f17cc0e41be32c99ef28e55bcd2192f0579295b1ae159aaeeac029, 0x6fb3e6f3e7d97640e1da786385c828958cebe194326d780eb698d65d739af2e4, 0x1f8fc961434ec04998c4952f1fd08ead3ec9a8ac7ff57f9ff7077471a2d5890a, 0xd53be2c7a3bfce63241da46e739f87d6ed3c0a88f89068b1e8dfc8c3d221a22, 0x6fde98795b8d14ae86ed30135eb578383a2e4be3fd8b798a694a6b306603c6a5, 0x6c14e0f05f8b411965c168e6c5dcbda50bf2d526888007ef0ccf844d2c15b485, 0x534c3ad9a100cf1aebb4544b9868cf4a51297d0b1772d756f79d5eb153ac74ec, 0x6a0f08858632136fe939ea4e73402d071975d3d8d959e3eb4c7b38450822de4f, 0x726570288990c3fcc6e7ff4637d281c2857d38f32070bc58a6e436b7b3ac07d, 0x269959305b56d1e3385b9388b049acb92c79238a27590cdeb7a4cb6fe64dbe2c, 0x4ca299296b201a02905dfb5b54442dd665cb30ef5265407da11380c65a9e4e31, 0x23dbc4e2365b3e977c5569d8681896beabccec2091964d7ecb9ef2ca5b76a941, 0x97ba223be4cbeab4f32629c8aecaf61a342a10f20b77348f37ed511c2b9aeb7, 0x25dd98ce168d8cfd92b58dd19f2d469a98ca4f58797484a5071959711e4d83d5, 0x5f915d372b14010524fe9076f7d73b24d08b47903022f3d44583daa894b53cc1, 0x3c5a685a7fa380a33f48eb6b01d91f257fa9dc60130e6e54db69d1a109175c7, 0x498c79bf5c5447516b6488c73263adbc024234aef470e5a42a4aa3901d7f49ac, 0x42465d1e5c5210d4530a16ea49ccaacdffe7bb180f7b2afa9fd9e0d6a1076c3c, 0x1d9b1f8c11c1d88b711aafa761b07a38935d0a8211ea0eef7e48c2c9cfa13efa, 0x434bd10e456b2e710d27afed749dc0cfd014a011cb7ccad9ce8463f01eb54b56, 0x2d70263ddbf75f648cb132db50aa5db313e287694a6a7137c46b15713d2b0e66, 0x6f618a7c2d612277f0d5b2fe3af22a870ac03c27a89e6c056d9af7a1ac90641c, 0x3964d7d4c1d452075ca607197fc08a54c5be25dd543f4d57ac3ea064e8650842, 0x39d4588c18ba3ba10f2c76ed94b5bda905d42faf794d98f84ad2d1618525b4b4, 0x18db9f21c28aa3c2aea7f9a8b7d959bd56818efd2a548a175ad659a2ff48027e, 0x711da9e3504120d93dcf28b38f14196039df458cb636348d415b278eebd95ef, 0x5681be09ec9278882e00d79367422c30c910bbdcde62d388e9860c249f607d6a, 0x68be12301cfaf61389c7fc4e5b7c38d43d45b87d04e4270f43c9bb911c37ba0d, 0x55d778722e7c78bf2b1f60a53d7bb8bd0530013ae71582fb76e4ec10afc5404a, 0x27a2daf2480899f4fa7a2aedf6736d288f34ebe025d2d092ffd13ca513f98047, 0x3899f0088126203e672b5c0ca88da7a6f9f08737a0693c5fc366a13e599568f1, 0x15fcfc592533fc4d47d854f08ebbe6ad682b586787c3104f8c759c5bc3717df1, 0x381eaf3dec26392a2db3ef349e97606e649c2238f4b0ae106dd2ae1e13e58f45, 0x377066c289da03ab907693d71489ec4390c6f9554b6824dddfe83a768a39f66e, 0x53ad1512bad91b2b41236343ab60161c16837ea4fce441a38472c6e809d68b8e, 0x5dcc30107278d24d0518f413ef4e4f8a871b3725ce927592429e27da9e0d51a5, 0x44b9b19df3a9c076f2eb9c2d54373e13fa88d73867b48a6f59cb8a9e7d89ab7, 0x72e18fb4f373dc104978bc300abbbf56657e1d86283dd8ba193bfd8bb321be1f, 0x508bfdee3bac321cd23ecd5b6a50c00585f034f342c568478250adffec2e6fda, 0x336e11ad0d5a5e4631f2bf3fabb14fff1f26a13727fef1445f0250465decabe5, 0x1c01c2c5e0b816232a4a564ed9a1efc0be80db73cd98145eb7d7b1736f4b0f4a, 0x6f1e21ff914dc53904183ac428ccc44535983e768dcd6179b9bdcca17debd533, 0x5d130f660d55eff16f247f189322a82ce4ea3b2340b54725f7c675991daafb63, 0x10e8845a7748c6dadb6525eaa5f64f5cf72a94bf6fe45ae874d857e899f8ead4, 0x10d70bcacaa9879ee38b1e1bcec4168f5e9588fd50fc0a6fd4a37d96be8ad36d, 0x5753a05a5b5d5ab09565a72ff0e2009810cdfef08fffc2b7992e429770f47f2b, 0x66b6bdf22c69936ef28eb6e3ef52d0b7924f55db5103c05b691e86c37f876981, 0x482dc5240a58a37fe60dd57b251efaa2f2982fcfc3b2c44e89f29502db3d29b7, 0x1287317326feeaab11dfc1f61cbbea412392e602e4e2add520489fe1b3dc711e, 0x406584d11a6705d5cc201eeaf4709624a0b1bb416ce2acf7a47ef8d7d4e9a3b7, 0x578b2130351f2d33b26367ff5c8e17f8db5de35da1a9656777c69ce27b84d90b, 0x135b989157d9465d10d8c97a811722338e530b436a9d05f0ae412a5b95cd5c16, 0x94231c47befabec946327f7c7fabf8f966c48955adf02b5fef91226405bc36e, 0x533849ea661b1513203f094be13ee0185df61f3b2d04c9d6471b5fa27142c69d, 0x36c67edf9cb58a1a2d5539272e750d649222d3c7b5715f5de4b30fa538a65d88, 0x3d4d29adb6f5aaa9adf5621312f62146bdf69d291f499ee4d9a89c50520a823f, 0x282c5ea2cfb74eab3624f3eb7f290d320a750363a76ddb6636c4202a4ff6eab5, 0x16d257d86f7ee8dfc68ae169e82da332b4cdd7b323f1489ecbf59c3a2d00e617, 0x5def863ff7738394bfa7148c7b090f25aa2ccc190120ed3ea1ee95732b8451c1, 0x5b1493c4debb425d0f023f2cede68afcae4ac046b55de9db0e301e50eb75b3b3, 0x6cee2d2a1bd7e3cebb36e37e979d6545a906ac96bde40677a949b94588c7e84a, 0x11f9e1a107cef3846e395697a8da087974f32df6f55fc0cc112067231236268, 0x153ae3f6be2cd8f782695513241e8e78c4d057fd0fd9f028b0860ed49f0abe10, 0x1c8381d3802eb630fc4cf50e144d9c85951f2735737f66b30fcf25e2102249e1, 0x3134f36fb8efd22c3e3b8a47a8fe96d445aeab97a91f4fb5d6ef2dc6d4c7b408, 0x36c1fd50122d8f9a95a4a129bfcf986742ca69afe8a15b8084613642d1c79e81, 0x5b315697189aee79c0cd1bda8992ef8bad0810a4da47d4c28146f24551703d76, 0x1445744ad3b0d963598b10ad75d91f02b011a9949acb87600a2075bf9f62ad7f, 0x59f0c8c1751277c29a4f779bb00ee4451e30c2affc6e4f03c9e1ea0627561035, 0x15702f162811e6af1df33ba08762430d9cb40cb72f1bb0f335a5d9b2bdb82cfe, 0x1418e9a8882d2cbc567f18fbe9294367ea588ed2ab0768ad93e96ed93ae66c81, 0x2a836c25e3f49f8207a4bac09ed4d688b69073a6a14a6fd392c41218c58085b2, 0x1d17a1609fbbaebcbc04d2fc5c53729f08ba2b8fa980dd7914e7911bdda83f91, 0x61d5d763c787d2110cab584737cef1c3b28bbc5be81af0e701f9cec9d1bd0e3e, 0x710ea22235d320902fa8e573f8082cce3ba144e5d57423a379dd560591db0ddd, 0x54649dde99adb1860ad6b40f6259bbe42e38e465500237c91b4ab423a04b2c04, 0x2e47c6aacf40c9c057e0ec6e793ee65c87881f61fed6f7bf5df2127ae22e9b18, 0x3750db63d7c9b3738ce6ac22b9b5b59dd3276ffd989de9c5bb5d705bb8699ecc, 0x6ac69c5aa92e74daf83efebf2aab6a1b8358ed56f2b3de6359b2a97d2ab1ce22, 0x274aafc5855278863dae26916470824cc5353b6c9c48bfa7818cf07030322121, 0x5705f9374ba4f72de674fff1b2b7e813eafc4baf17af89b2f6f6659143188fda, 0x4c3f79c0c7844408523fb121810293aad6421e26413f794b7dc6dd4632f690e0, 0x657cf7749c94af8c5bc37be6a6b5230262770a777bb3d80a2e0b8cb20cc03fd0, 0x16d4bdc8755ff056456f97f95c592e2281a81028fc8c9c7529af4238a7516cda, 0x6cd8b7dc4196ca2cab9744b7c7ca05f912754fee6b95602e3f2fb0ad0760e389, 0xf5fcb8f59ec0cd0976613fe0a1bc5f9cf42b9dfd59886a3426715fe6e79e3c0, 0x1461942b3f68538b6f5d699357c2f0d36411c27dbbb470a42f586916f295e5ee, 0x32491508d736b07fce06e6145c6ac7a471ddf13eaea2e1e470dd4c4b196b3482, 0x1842be7fa432135dbf0f491f45149dde1e70f80a50e1483cf3ac48b358f5691e, 0x4a3c4d61afea2e8116b8ab885724a6e7a6cda0f039a30bbe856289cd90dbdbfb, 0x1d7b74c47eae3476c9183be454a712f9e60c1ab202684179b5c46c73a9436e72, 0x4c6a80e86c2f23d329946e98e9f92af813e11b6db0a4683d013e2911c29d12d6, 0x468f6d3aa0235d0cd777eb9781067456b8c0f1848f4d7fff206238d07ac3619a, 0x8b63c832fa9a8cddfc8ba5f79e73c8ea73aed1e6416024969d05b6104632ee5, 0x3a156f8383dcdb42b226baf7ed8c59c62c9378fe8c13478ee00243d333b22a77, 0x5dcb325d020b197288b7465b2ac46e2235291282565e80d924a7e56c345e9eca, 0x119dd20a960c5a312abfb8d156a4d6e80d8649de40cd3fb925749f684ef397e7, 0x23509edae71ee62897a29149e575f1a0b26901146b57d6480e917edde11a0264, 0x183276ea76a0f19dbafebe5eded7a3877a84671d5fb3b49faec561d0a6566271, 0xe8b0c675068ec4a79b6523b97fff0befe3f105bd3283f1cc8f9cd4cb91d5671, 0x5cb5d0ba3cdd0fba27117b92231b0ac2b72783de19dca0600067e660537dd26f, 0x8618ad83ab291bed38f72b5e78bf5fd1627e28a3270bad5cb2e6a9949ecec18, 0x563bf3539bca7522f5a29e10bb2dfca60e3a895e0e0db822b86995ace0ba036a, 0x43492d2498fe2896e6555dfb6ce62e422084f57a13fe088d7c0c0a2cdbcd896a, 0x84935864beb80fa366b1ea43ec8c1f70ce14d9e078d4a65e0da79bff2d6b30, 0x6d634db08ebff212b0681db7e1d5c0fccd88316a8ca2368fa0fbfc9b3e273e51, 0xe92f47a4d921f9640842169e574bfb49c986ebf54b0692f6164c3642479d363, 0x21bec17f0db4331d04fdf00c45c31f7c85e573232a7c57652caf80a69ae065c7, 0x301cb379c67105ad9183d9f7ee0ef02a0c0a04011eccd99389eea9f7e6e9ecec, 0x34aa1d6f31483db79948b015c34dc82d3af51b3123ed701f1471251230fc64f8, 0x592fae7d7cf0957b7036e41e368c3938cf5b631333e8922826d2e6b7f065ca66, 0x45030f3f92920e89e72d9636bf82a8499e9498acfa401bab792565244dfdb5d7, 0x2e9dfcc77b6e7d5410a82eac2cb2373385c88f4944c8a08a73a48dec723d2677, 0x55364db94367110cc9ba1716b9fb2ddfb7bb1fa9093f1d63efa4f503154752f0, 0x40c5012ee4932d776cb6affd989d70dee86b96533294ef9d6a1df4dc5155543a, 0x2a2e5d123d1b7c07a6dfda3c5bd8bbd159d75bdfd98292ebeb631e04a3916a42, 0x2746a67ca55ef23ab7eb0e21dcc0a1b0e43dc8d01b3115495d6d885a36afd9dd, 0x1a00aa5dd94ad347b0b1b623ed86291fb4c99694c92317ce2d542bce4bb0b36d, 0x52d2de90f3a553037aea60f963302e6bc74e27f7d33ead318fc9e525b4421465, 0x133ff89d1c80d8b839f6bf750b56dbbef1623a4418f10a212c955421b87f3fe6, 0x230457faefc9a1683c5cf1ae4da6100895e8cbba6769ea7255e4c6d4c5476858, 0x10bff2e338098c6ccc1cf50be046b4d1bdfac7a1a8a2fe44907ff5da7f4c0fd3, 0x4cc4ee56bf066aecb35aad55d5362f19a6b9786d9e41bc856019bd42672f37f, 0x5d9ec1ebd0c45c932d4ee504b80f680c1205baf0a886e230fee5f621af920b1d, 0x3f7f989b138dee50c9bb5596d4340205229a099c8aa61d8d4e2e1b729e8a897, 0x563c42df1dbfe6329022f54a08ff796368de2fa5a08c197eaedc6e746a37357e, 0x1a85a243efceb9fe7fbfad0e263d33136ef57f0668ec01d7a0eeeb67f9f66dcd, 0x215afda715e241e2a0bde36f9d729e30e35b0f87294ccfb510f565317b32bf7e, 0xefd85a98bcf3c0375e28d1e33150a6048044d3f3880396f1378f846a44df9f0, 0x3dc99a65bd43e82b553ce64e82218f5028f9f548a72c89905892df22aa64042b, 0x15b6833e9ab01ce527b24dad2dfd8355aa470d4e0577d711476fc65c0ae4bfc1, 0x450525a9898725aeef86279c1ad3af3b57237ccac15e6942791b25e97fbce449, 0xfef87f664b97c444f75bdd3184b49810b173b543807cebe63835fc546dd2d6e, 0x2a020cf8cbb7674fa45de07b1bc6b027519a116e5373837f9092737936fc4fac, 0x3047672b94e51b6b8d220817b4e32c6a73426168056adbbad512051a30a6267a, 0x2d16d340f83331d737df7284663a7e3e99aa9d022cda2a1ed1129f5f0a8b2386, 0x4f1817689335d6255b24637de4c500b4a42c96382e2835b849ae72d52648803e, 0x5dd0360d221543ecafc04758f4df7af25c09a613b00f50e14e3c23a42e2d828c, 0x1dfe5598689555d1e15daa6de8dd73dba577ea7decacef9191b2cc844ec38e47, 0x6da7d9df239d5794e7379f84d2934278db44c15cbf749c079f03e62cf845fa7b, 0x3a7b3a48d9ecd397f1df70325223644428e64f16e7d0fa8c4964ceae91f10f42, 0x604e512bf178f3fb44a662e8213ffd8a2d41330472e128c8bec0617d88907e9b, 0x4ec65fa59dbfe03c4eb7eb90887b39e6e854a42319f1a2c9d0c01cb762e40f58, 0x1d6622d3628880319f60072a27aa54fd5a6bb7d68976bb8b06fa67c9eef238f9, 0x5bbe2308009dc41f4313eef823759eefb5deeb46e519b2465bd95087b115e51, 0x1ee249e785352b3e9ba23297dc56db29d08b559e827c03ba78dd7e2f6eae4ea8, 0x3cd97acc762932f4f4d1b659a26ea036ea0416b15b27bfcebb2cbb61969ccacd, 0x6be6fa3b5638596b04aa1ce65563d3e79f1d02034ae20fa046ef26f6b52b6a04, 0xa63235575827ea096af176812423a71e971d17a76acada70b5ecb8739747b27, 0x5b11f2ea6e33daf3214219db50146c494c0a37023abd7205f7bb809ba8f70ee, 0x5d9c9f8262c9deaed9d523710c71221f12af0f52c697d31d3b2fc6fb674f98fa, 0x92a2692b8005f26dfdbf1c857baaef0b6642f172877321bfd285e986a9b9d70, 0x46d8dbe6750222ef2e887216d794d109d3a8b72c7a185baa1135bc7eb62a07b3, 0x530043a8fb4c3cbceef5d5856e775a40ed9cad72f4368497aa29e64b57639d22, 0x72b7eb0c64fdb44471d840e0b2b4cdc0f0bd5509e591f3f88b93459d17330b79, 0x6173e7b2bc90112a5b73644368f2808a5df9ec0de58d7b7d295034f2913e9165, 0x369ba90699209facf5f20c17738b3d1e9be65eca3b71b4bfa8275f35e4f3351f, 0x19dde96e994ebce97ca49ebd3821216c6a8608d5663a9c964b0238c4c58b330d, 0x372d5860915f989f95ebcfc2f1b3622cf0f0779dfc802a0dfe9d28ba0c4b3395, 0x3ef284b9cd1cabc210bff06dc85c696644e938f26725bfd8d1d13eaa8a71bad6, 0x22cbdfbed457dfd65d273663ea2f2f934cd631cf8222a4068c95146a0d27e415, 0x342f3133aa5a41ba11905675597717e4de5e8a47525c0223c9a72345758d5534, 0x36bc85eb866dd27bdffd56fd96ab65f8ede21312cb57dee4ce717094d89c7d7, 0x61b1b24a5f57da97708b5942dcee3b76bffa542a2508fa8f582b58f0712e612a, 0x20c8a79e4926e68776f92b8affc10d155b0b3e9b59bd1c8098e845843f88d805, 0x4a9ae0449f0df2064960b6a06804c2b0dcb9f6b58eef21b37cd3f629ed956db1, 0x776f4466e1596a5bf59028e020cc575caee732b759c748c38aa7f2de2d2ac8a, 0x2e0bcca4f7ef75c3a1f995454aaa1fbfe9cd90b9be677082244653299ed8b362, 0x619eda38fc38f12f9b5ee549e474e55f97cc647b304ffa12ede051ec6f1a324f, 0x5e703c00b99b12c84d992b3e09f26178379e28f2ce01f574d86e6cc683a2439b, 0x1da05fdfaa0100d38665308c92041b4765df6647fbd155b425d350fa3965efdd, 0x250654281d3873e4abf2766a46d29e67a832947d252cee22c31578112610e828, 0x7376ca4b4a820093adfb4888b7bae5a3bf0a443b1b85883b16993569a92ff4e8, 0x73640c9d4d4fd043eedd988a299c5c35135937787d3e9e528d0fd9e5c5c34ace, 0x5fdd25b4ef4615cdea54c606da363b4467a7ea6f07ad82dd5d081d8db21fd70a, 0x64b241f988c09fd1acb098787d56b93427767205a44f6280ffcd7f3901f56705, 0x31ef7c4810769d78d1eeb98e02ec466791618e2096c948f419259a2faf441031, 0x106bd834ed8ba8b5d3526de144ebf26e06b25fe183df6a4523cfe9b590d3e514, 0x514c646b8dcfb77982be86d73e73cf82b036061af208c5f569706007f4609374, 0x4684183b0cae0a9ba98cb1773277002b318f7520cbbab67acf09ac00d5e68704, 0x3e900066b4e88fa81a97028f28b43a970ac75cd71e50cb021cfbd7a71287a7af, 0x3297f28e45ab66de69bffff5521b4386f5250f4f5a3617aebdf30b36bad22f30, 0x71ca26e1377db959df2d43e7a8f0afa70d150c1e8b91928adf653533ea2877f1, 0x4ef5461d2115fa0324216f3c12d2675f440f40f9dea27d67bc04ba6f9bca98b9, 0x45fd8521fdbe852bfbf6df7562906541d6a3d6e2e3d4da4ffe440186360929f3, 0x5bd970ba11ad74782fcaabaedc34655b10493a687c0273a6842c960970d81099, 0x601c4f7e35b1d99db2088bb2b68f7a66081429fd6acdbecb873c626285bc33f9, 0x4b1e376da916aa0cbac7bee48f8b9462b1f503c5f076bd540f2e99633fb27ad8, 0x230829648ec2e7ece64cbcb6cda572c2d2009d0778977d0f731d384b4b71a4b, 0x3c3f4b297e09ec4d0b598b6b09da23121c8e733feb4a325b782a17bd45d0042c, 0xb1be08e6ee4351b87f9fd1acaabdd6a8fafa7a40a866a026772250b4c0a51a5, 0x6caa892154d935cf55b4219490258d34df4e9066848e398ebb0864bc67323e81, 0x6b00066de2228a601557fc7d9afd8a00e0872f3688b0f4942b2221ae91ed6ecd, 0x46aa4934fa5fd6f53ae6df7949943d17dd84477d0e42ecfd9f9ca70096cdcf5b, 0x45ea3a5f6b4d0c573e73bed8ed02e6e0ade05330f6236799f8bf395251e9192d, 0x45e99c6dc5a61b76b14cb6e8c4f3838743ab220f560ef2ea87ea81c0621c9a3a, 0x5c2215fff4eb54dd8a4e8d99517120f98ae27ac722840bbd2a9e5cdfc28df4f1, 0x563439cd6cd0a28e673f532fbed1e8326a7d7c4665b14626bd32512094b51009, 0x619f386b65ea01004b754f81b6650d20050b54fa051885e4d93d9e55eff73f4d, 0x43b3f361f78a79fda8bd13d5b792f6c5e58a973f65a41dbfe683b31113f62d25, 0x64d5e30d7222ce7c394cd244b10be5da3775ebdfb9b798c79fccdc57c3f7311c, 0x687602aba45581df27bfcef7b6e827175839cda3022470fd79f0161179622067, 0x4391007359c9f23c7850ffedf38e8de8326d2d33b503aab621791d904087eeea, 0x4ecdf624edfd6e9d34d5696abbdb30d91c4fb66c80f83a40b2ada96cffe42747, 0x2b86ea55dcb5bb71d8bb78ad699fec8317dc5d313cea24771ddafa028fc081f1, 0x5c7c41adfd6dcaa40fc951311386d4431228d9240c26522971c18fa653ca2b25, 0x21d2d0cfb637cdd998d049770141a8499bd4a2e4fe8c2a3fdbec0a8ac8eef647, 0x8301b2b6692808cacd776e1fe93784c6fb2f676c2e9908df044ad27dce74968, 0x1f3b41f6c339c114e91565aa356f35ca565c30bd5ffbe162482934bb8040cd49, 0x3063695c4847343ff156ea42e8cfc8d82677ec80cbad3863612bb0b5a61f393a, 0x3edc4163dc0cc582d814af40aa7d3753278606a7abde8202c7b02cf3026118c5, 0x16da7a961bd4084256b7c488bd3934256ae3104c573398d34b6b40a542e3c668, 0x66d2d4490253b96151ed581199b8aa97f2c06ab07f49a41678dd98ca42d9b128, 0x358b2336c22697d365edb89cfa5bdc3dc63f185218479ae837ba185daa80427d, 0x2684b047846f441e369638d5799603eae68b10565e34d398814fe59d32b384f, 0x357618abac1127fb34d5ae086da2d48875ef8338156c1dc10578d5d611edcd45, 0x310ac415bcb588238f1e45fe5b58466b18784d995cf6b0d633a3af2c07afaac5, 0x5e646c42e428f2c1e28769295beecba0ab0a5025170b9b31feac13c9071a1d70, 0x5c81b745c0929a1cbbe751bdb9b7d962cdcf2ebbc4e7302a92276309fc2624fc, 0x17b4746bc2066cf4df77e6c0888db784f58411d2e2bb07d3eb96c33a0f92d00e, 0x3d41edc6f62379aad56a251baa77472094035f4e81139737f1ceb9b9fdad8431, 0x46b4024043cb35c60e1e269293b406bcbae2c5ae6caf7650461ff455bac7e0fe, 0x196cff76c6ca55d6967aa6733fc1b217f5dba3916c23f79576551ec626585c5, 0x8d7caafce09ebb6c07fa156242d0fab1c0697f0b84b4d6e8e4cd27e55cb34e9, 0x4b860fcbbda48218de4d18c29b7d044d6ef1a760e39c7fa9a078308040af8721, 0x51efb9fbe29839477782635c7e85fdeec1ae19635f06c21f7331f9dcbe46c6ea, 0x28c1d316f51c1aff5bd65a599248399e803dea1002b0934eeec75ca28aa169bf, 0x53e740a07d4ee5cf8c0f08f59063cf306dd6a82776641fd2cb5e6f4b5eedb512, 0x2ef0abf2a8aedafd7c7a1128cc57f0e5db1e9fccb071bf4636b23c1047ecafdf, 0xd3df5d716d0f54ff6526d47c10d3654ead1759c84a3d0e8aff5983f4e6d5985, 0x6485c59d125fd770113f07630a63704f066432810dba8ace89947660003afc85, 0x5df40ab7ab0702f1ca4bc85fb6f75f9526cfb47105c32e0e6461334ad7d9598, 0x62ccf4cfcd53154eda942614e7d73162e45a82977c04a5f89c6502c5d59b7509, 0x34172380bf3d2f784e25ada6722280c3ac2e105367eec78f7b1eea2c2d72be5a, 0x4a6889e25714ca16cc2f3a6c2aa8077182346971988cab60a7f35708749d5eab, 0x56bde92d22939002308eaa17c1e37b317081b13ce3038ebc9de5a2629b00b550, 0x5e75dbcddc26ae21e7547a5ab0d33e7610b039d39413c5995b288813b6e6149a, 0x1a0de57457dcc695e3082ac84b1c71f2caeed99931f4078f2d96d0fe7985726c, 0x640c3807d595abd99580cb8b69d040011ff68f6eeaf7ef8e6c35a4abdbacb7e4, 0xb6355567b2fd20074719924cdcbb1f6c60a9fc476e24df1e9165f9ef0f3c071, 0x3172d79c3c1418215246d4dad1613dcbc28d4c52872109de644555e4c65535f4, 0x4915d7d5a722591e96a75770680c18d29e94760c15e5942e242537ceb64d9bcb, 0x2f293b99c01b1bd274de520e952333cf1073385fa6881e1e82f3b28745472619, 0x5a5625925664ba6226b2537d984e72094f27e2873925101ee271f991cc6d6613, 0x209703bf22a7c718b30a500a8aad8a3d799752657fd4044649911f30649139c0, 0x64b2938f3305ea681b899e9fcc5d5eb663868804f9956fc87e1691122a3cbdd7, 0x6106203f22cbfa3b74ea016082b76425eeebb265abd6c04f9b500457159237b8, 0xa1338969eb750d25964f7f1d5d98f159685220e667962117efdeb96d63704a5, 0x1879034946a2100707526df7852ed4edd896f0871af48666527a22a41386fd95, 0x66739839959c4a9abd5522d1af484ee1a861c8d93c4a805cbbf94433d0a3cd4c, 0x1a20b18ef7116891ae986c621ab06ad4ee4464555288d747b3b4a29a33438a0, 0x125524375d8538bd5d0f011e892d2555f5545c815f66fcddae2a7408c1143024, 0x6d123ce0fa753a34e532449ae2daac69fee84a558acb7a693c2228aa871c7ebb, 0x28ccf1c1cfaa148396a549d942c38c1fdde0233d9ec766b3ff97db54f568839f, 0x640467e8909695b099c757ce9a0c9ac03bb2ed2e2f298f12cae0c1733c58ae5f, 0x7dc80f3373a495ad7df819bd5d7607a742c1fe44d95623b1b6a6c898efa9979, 0x6c9088954ba2148579ea81f7df5750b972358c5309607ec137ebbebb46c0aa30, 0x161375db3d274dc817ccb4ea320ce9bbc86962d8629c8ec6c81eb544dc67a4ec, 0x3299518bbe174527824ace328ec0d1abf134574f11c70c76504268bc1db680a8, 0x1a1f812156b42fc103e8cf8a881f66653a899ff8758f164c57356b857f1f3f14, 0x500e010934dfc04c52419b03391034d512d78024bdcc973bfc61bb3eec24d99d, 0x35a8efa74538f975e593d11f4cb91e9c16d488dcfe384ea3de81670a3ae0fde6, 0x2b236ddae1b947ad515d140c4be7b549966ce024f2e2df3fa518c89b7f3b5514, 0x1789599106fffbe7ee01bf759234cb35b6ba509edd93810c76100f4324f5e2bc, 0x5e9625036d894ff8b8f57fcd1bae65f79ec0ce51ad44485afa8a427b040b132b, 0x8346a9e2c8127f58416c89af8a591509c974c807baa18e8ac1ad88c4539f2e7, 0x883060ce6dc803b7628c97c02dd7664904216e61830a56ef2a01f7abe55a4cd, 0x29f4d356a35998be4d50df0410dfb48ab587e5bd000403af371f034d5ed24b29, 0x45dfaa978d17471a3716fb6668361e431fc9779ab96e57c88a2b12aabb51b098, 0x3fa8a1e822bfa15d5800440c49a0382dfa0d5687414ab35020268f1cac753b31, 0x433751976a9c10245a0531ab29989e1e1cf29d7aa354ae22888e118ecb04db76, 0xf4c8aa889e364defd2edfe6fe399b5e82f2e8c09998d23fcbf60d8f1388b8c3, 0x1448ee992166d091829ee0546fd65e3b5771805a32e1b69ec02d826726a004c4, 0x46d92c4c4395e3673dcd02bdedc0e31fe7e6c81c441ff9db3198b0e136967db0, 0xdd0502b59230d0ed83982fb07877a4faa65f18f91d7f504ec07564061a71bdd, 0x3398509e96f03bf2f9d683e1de47d48ba905a1fdeefc54e2f774e496e1968214, 0x40588c6e035e3f1b4bbeb0820630833769e9348c9fd5610a3f38bbf1d2f572a2, 0x5cb06f0164c792c9255a1826296984609f5efe2a2559739774ad356db9bb737d, 0x2a35c2734cc2a7e557cef849623573f208b8a8e262cfca0782ff3a5daf1801f, 0x54aa088f3a361afdfa7d9b835239bcd732a4e685c057553098006ff9204d4e6d, 0x2c6b43278a99632abc9d4ff43b6c14d9635185083512cf3919c1995f68792727, 0x5d6602fc7e5c8bdec93b280d490edea009651499fd593624bd09c41c95fb66dc, 0x5437a9c9f24b3ae876d3b628b13aa8a175cbf3a4ff8f3d386bc6d3db14e18740, 0x1003ff2e876dae2cf216f85c0f8ca83f159d786dae566ac581c0c43105f929a, 0x62e6a81bf8cd0a4396a38e701f44cbc56a1b8cfbd2cecb2c3766b1dba7c96078, 0x31a49bd4104e6b71408b13f1ebc9444a5c0cea4beabf79bc252e890ff8faae9b, 0x539e799b8cf4e0a34c09d538e4005b4e8f106d8e7ce114888e6c7f964851feb1, 0xda6f87587f329043206f57f9482755824a10e85dae25fab18953f96cb837b7, 0x3f0ac53c901f8734a45376ab25bfcd315ab769b63a8abf534322c481569d0f0d, 0x3c99ad314c8ef9f784a3c181ab260212ba3785ef300070cf6207013175937f13, 0x133fcb371ba0ab6a4ab21d21287c874e235daf5b15665fab7c6310263896a81b, 0x406c89726bd01672402dbcb915277ecf67e0c2ec8ab2efcb3f37d0bd2d43a06a, 0x479a40803964f923320363597407ecc476e67038293dcfc64b6739ce4207d1e5, 0x28abcd4f2e271be7f17a5657a4a437a7c13403d1d6750fb8832b32c2a58985d0, 0x414d907c791f068cd23b08dc99ab68d6ef2d6a583f758f1451b45b6778022bec, 0xf8da7f63f61dd0deaebe7bdfd5d2b15ab44692769aa08d1df92c0f818a34ea7, 0x19ab4adb5ce09e9fab71ad6336c380cbe4c5b3a210dc9e160cf69da2ed1c9aa, 0x18aeb12d59984bda3efc8dbd833a7f3770af5b4b9d7b777b00eb325764648377, 0x609f036f26611c27930bff200b3bcc832f1223fff1615948f5b4c3c61a6ff370, 0x293a2ecbd34bee89d9c1d2e0a80f44931abc33655322a0c382aa26c86141e647, 0x5837a113c10454e76ce7d0f10b9d3f7bd6dab2b60843e6f325cfb5279d4047fd, 0x40fd344263ef7551acb4713cedce8afbb1236e2ad7d3e863476aed5f363c5fa9, 0x349e6909c9c035aafc084510d61c6edd7c60f9947a903475abad10ae0353eda0, 0x565729801e00b187c569f443540eb667f5ab486fa2cd22decfe1c0256b4baca0, 0x5f7ce7d6f0bd1a2a4d08919fe06aab9d5f4cc3f0e1740da4703eeca83868f9a8, 0x72c4f87cd9114e9f70eca732fd46c81adbca65c22b96f6feefd1f5b3e01d085c, 0x485e0a2c9dd0c500e948aeb56ee3a31b4c73e92b082dda52148a70e4f55616ce, 0x404c9102fb79d96567d99d2c929c98c29aba9af7f62d5f3196dff0a956a331d7, 0x218ee6341319d25999e949df22d0db07482225656e80fa416185fb86c2ddc703, 0x3abb4d4dda857b6c22efc01152363b32711af6135440408a046a9bc27e5e46eb, 0x730f5475d8e27aa591169e6383237fbede2ebb08202430d2f5fbc659cc0d6014, 0x63559790ab54abb206c99fcbb5ede6d04105adff81b0d5e95c887b878ccd4c87, 0x4d703a3f31356d3973ab570a4d2a25ce47ca0e0a13a6b57cc14099c2d8e5339d, 0x738a633a15ba9a024b478aa4f9def0e30e052e33483e5b439c78f5cf840f8ccb, 0x508e79787d5f7cec44bf5263eba0fd9df4c112fb196fdf1763ac70c550af9e76, 0x1ae6eaf3dabbdebb73bb13bd960136fd7496a5772065c86d4ddf8e409c344117, 0x5a55755f943b8bc204c6548fc47b523bcd44496d9ffcf262c0d599ed66a96de7, 0x2bd2fdcc1b60a976a942787aa6fe7ec909c2216e7043d7c6bd9e8e2deb3c8e1a, 0xc0dae0ea0e1631637adb555574b222cd26416e3f8c034016370c383d8393871, 0x58772b0dc482a2558570e289a29a9013231b7a2d880a70f3d09f0db4733675a6, 0x65cc5eaf1b16755e2b585d1deed3c9b9f20cb5594dd9bde688d753deb4bb0d37, 0x26945f7991ab4848947c15938ce28257709eed1845e4fcac4a6f7d93cab71b50, 0x6c9e0a45c89e5bd23245d0b457771cc7942e98237bbd0ee9b17589a76da9a292, 0x6e0032120156cf8d9d0af8df6a992b29a89789be9234f6c975da7314dbc9f3de, 0x41ddb61c45a2b77a05cff133d71a789b231ffaa122642b7dbf6e745393eab38b, 0x3b82a106417cd3ac810b6403cae7af248918b86feb58511456e2608f4cb90bb1, 0x51ae6998f20018bc6cfdcfa0fc0b6160fcd05f2c0950b516cab9e8d218b67edc, 0x71142fbb409691a718b08bafdd1105794869b3d8d3e36e0a05e9b62ef4cd259c, 0x3d609b995765148d0a379b701755237a3c5366b58d825a24fe66f7d82adb1e6a, 0x6ef3ab882162cb13fffc43735201d39853a2f67a1c92299793a846a1d17228e9, 0x33e7d6c17e9b59e7244370f30799cfab284dfdc43b7f71131fa50b6cd3fdefb3, 0x4ee5fd4b3c1b25c02d415aa39d27b93800fecb4ecb6b8221f71039bbab19ea1a, 0x3af027c9e335dfc2ea1407f8de97819f9c8289585c6a053eac0eceb13c28616b, 0x714ae6c23e7860334464b68b060abc3ab4d5445487134f5b7e81f9e9ef57f674, 0x343c3354da39cd1f82220c372e1eed3c002523984c137b2a3e03ffc74bc32f84, 0x12d7f1bbd2e6b0d7f203c03cc9d2530cb61f707adf64d3aabd6b472f76673065, 0x467388e2aa00ba23fdea42643e3276c16c539460c56682e3b416e35d5972ad30, 0x2a0febd41cc9cc64717919d3dc8ac3f5812f5404d4712cfb72179712193a2c0, 0x18e627d62652ef6b292808cdfa6436a26bdb2bcdc538c89fa2315fb8affba759, 0x3b772fb7384aea04e557f7b106ba49b7e1d8bc53fa71e671c6857e5b1f0de541, 0xfb35d16684fb3036afc85b722c0a7242a29b442ac57ec5a34c3da6d822c49b4, 0x4f57756b913b231f91c97200fa27586f2b147a712a58d34e7074f00304a1640b, 0x6982c1eac4ccb4b897c09ca48c8e9f320ac8122e4699caea465b59e0a4193da4, 0x5516c9fea55fb955a9271c66c9a7e73770fe8e6d8712e83dc439f11209a71c1c, 0x3eb621143e4b93e24f3493a969fdbf3c7f317120474ac65b7a3174ab21168405, 0x36a09effeb1b02e610ee5108737c6053bf9840fd081b716028531991b03cceda, 0x4560060391aecc758b1fb5e7e56b8f7308469195042f7db9702fad1a710ece07, 0x55fa3e80ea90ccad1335b63285cfea508e381e97ea7e4c62468ef23cbce45b1, 0x389af7e25d0e707acd51b6a8dc04f037928d457559deb9cdc18fa88802bbe4fe, 0x56dd35ebf3859facc511ec6c632c9f27363d3e571893a48a22d6aa4f34f38286, 0x34e452639fe15f10ab6e17022ce8152580a21cf0ff6ce6131f21a1f4af244fcb, 0x7338285706a65b7d2d35d35899a862da9e9fe64f9c07e24c99b84156b51ca7aa, 0x2599fce953aff64ddeb69e990d90259da4bce4389144f5b85a9dbe424a7e946e, 0x68e4ee0a6c61c7d7d6f8d1ce6fe13ca056cf4e98987a2f5ffaa8dbad32ae838c, 0x71c3fc1cd74b831698f336e7580f5f6ea72f267e7b977a0d785163b66b39ed12, 0x3098335cf802b39640f36b09336eee0a8660a1bb249f5d4bab2fa440a07f46ba, 0x1ffad6654cc1bfbecf5847353022a0aee81f23d4e8879a0af07e47152528fa1c, 0x697a1f7647725ae6c03e77f38d2b0a0e25937ce8c0fa291241ec4c4464c5a44a, 0x3750f1cc909bc806970000d5ecee3fe392c0693b0f172f7c504626fa12677de9, 0x5e82333c223f78115aa5d285c7f4a35d1fe1448ba7f06fec9d74bb18c6610372, 0xd52fe57330422ed7826ec40058d8b184a206bfd823edb9688796b7d7af91a8a, 0x18ab0963e0df263e18bcb7d437134c44ce44bf50db9be7ea5323a39f7f806fc1, 0x43e017c346f452bbebaa79a84da3b690a74e995d458ed6519fec0d6b85cb9300, 0x5edd78ed3c68f85a53139927e0b246f92b052a4a1d2c8a6fe687ee9f7af8a5c1, 0x51f9ba231bc158db4f528433d405867c0584f61888e368d3a2e9d5142ddf917, 0x718c445912472326ebc50630240379c41e39b8163972461a68cbf761c60ce838, 0x492e92093ca220e21fd612e387506ffe1255efc309566a15ce13189b3ec1c633, 0x5974428bc8577865642da15d496c1489fc9b9796557082cd80d34cf75685d1ca, 0x39dc2b35a0be615ec8264a683c74953cd0ec2e825dbf1f1da1557a0651937d9f, 0x3ed51863a5feb051e2318e5692fdd4c09be4844b4ac9473202eb07f8a599b58c, 0x2d1143301794ea38a8290c024e7dfbacd2cd74eb54a0cfe6fe22856c85784b77, 0x3146edd207c7d91d4bcb716a3e359608ce5ba2c7670c9aa1ad7eaadb70440458, 0x1980545d2aed0fd4b96f3c0b4220b8ed0e6fcfa0a5925ad3ccd19f5edb59f947, 0x3cb0916e904fd0ffa29011951fc9da418ec9a57feb7d64cb767ff6eb8f0aa4e4, 0x19b411ba6f0b4a0960123f85d59e3dc8f2d8ec5ece2dbf11318d6da643a01ce2, 0x4c89f7f29136cfbaca1ca42efd58df27de1f0e9eb92ec761bb0c6ffb1b4112dd, 0x672673ba5e3a2e50e3f9d5a2a79ceb4cc60e42ebc35a3a097c264ecc37e379fe, 0x683b7ad5446058d46ce738cc0b61d6adf09825b9a33eb530be331ea17d426590, 0x4f15b3f091f3added10245981847dd7674119897b600f6fdfe3d5d4688e4d28c, 0x370c08d86e185ef7f6864fb474c87b04e65a68fb3bab360454d2e30eccf487b6, 0x3be2b9183811d0b0ef1119f727c6ea34b0216fd9e791aa232a06b588bb1802a7, 0x171f75498d5b7bdaef6538e0185f2b6d9d0c61bf24ac6c12c90efd3482e05136, 0x1f591dc542a2c7a92c8cbe5b9cf8f90f723b5f992b099fa13171d993b929319e, 0x52df56618dda7feb790d53733e169675a74a4e4507f3c0743d67530e2fae8824, 0x47fae2f8c206ba3b702122ef1437a4a9411ecf1d40421bf396c6773660de0762, 0x22da0f179c063411def7e8880789731c3b01b322e39aa70996c6aad769918cf7, 0x55b693882c40a14b840ddcf749fdcc9e3bef7e5718c73cabc4723bc3b1969fa0, 0x417490761601faf9dff725017d45577dbf280a8f4a048e26d879839bfb6cdb62, 0x48ad183543a6830dff5f037fdbe3c61d51f781a4aef617a2a133f391f2e22d7a, 0x107ab8df63b1e34a82f5d8d97e51b09438fc1326f788b29d7c0f8ed39c22a8ed, 0x695eceae04873cd53b6cbee4c3e70ffcb0c76cde769b7b1316babc4bbc4cdd82, 0x21b465dae2b6f39fbe1049fdaf86254be1eeee455d99e3a9ce81df47b05ae312, 0x45d2f05bbd7e958f13476b8539619f24dcaa6a760d3a452f31ad5ae78f9d8a84, 0x6c7fa0cb3a4cc880da2b5dd70b29a61118ca6f77f63458610d4c4502076db909, 0x34453d6ae847566073d8d68033becf1d36e5bd36ecf51340025f7900eaf2e653, 0x544db095aa83f58b9fc73c89ca49b3e74feb33af2bf83f27e8a1d2c5431511f4, 0x4c1a3c6a30530341128b9d05c874f519c6624a015613fb4d11f3fe214d8e271e, 0x27b8571107dc2875533c6089aca7a4ccf6cba7e6b5b63f2703fa9003dc5eecac, 0x3e02ec6df7802c876fcbee68a99e8f45143ab0dddaeae1df0577a50fef3d69b0, 0x2f5a0fff65f788cf5f74aa8675f85bd377119007a3459e37f401c3ff16f5443a, 0x3b50139543cbe467278c89bdb537de47a534c946b17f4e66b0179f03f8fec233, 0x3c8de48850e7c6db9c376dad55fbc2af9a0966fcae21894c59637c103d2ef38f, 0x3f13dfd75b39494c69f0a628f2d2d6717b86c16f7b628ea53f6a30c770abb50, 0x56985b0ec9ba6f74d77ebd79d40c31ed0b5c091dcaf38f75ca0d1397bc333dd7, 0xc7beb1cb720a2cb4098545c1ea4dee372de69f5e603fda8cb6a7b997fa80458, 0x26ee5531577279e19fc6c7a00e1ba53a5cf0d6253cf05a543cf699bb7864213, 0x10c1a2eacb90fcb5112efe3be7b3c07c32eb0f87072d8b79f6257060adbd976d, 0x538f7665c907c7b51d2d4b6a30a2e791ba50f4ce2b031c3cbae074009fc95aca, 0x13cd7e6f62b940d15401130d3bf311bfac282fda3853d9dbb86267638ad1067a, 0x3617e3638798572be632678b818ab111b539f7da338a615084b60ae60c88f746, 0x18d9dece531a8207c1610d3947d44071c0bd379c9d23c495bc0c11c2b961d22f, 0x4e467543463a8b2b58795ef6f9e84519a1439702b621887f53a520def4f11281, 0x68ceae86a9cfa4039354a90d7aaf6f50fd7eff4bede2d57b0f017f9019d1f2f, 0x64a84fa7c38cd236c4ca7c6b6103f0e8b7d8529c81d8c5bfe64af09a0f5b81db, 0x4e6b4be0d3b710d7c50b4d6cd24101213b93c7ec2f594372c2d58a4f2bddb729, 0x616b542b8142b571d968f6d8a5443d382656ccdfc9f8536620b4a5f46c3e4b99, 0x3b42949014da3357697c36acbfcb593eb1de7f822f7fbf7f12769a57409b788a, 0x257167910006d27d952cce0a332f30dd1727edf8ec8cd2ba1629959afeea2eda, 0x6dfc10db3268b316b00618a866fc789dc0633fc9dca36ab11be20c44505077b8, 0x3c6cfb5079d5d9da31b31c26612cad1467286a65cffacb7f84ed2872bd442b16, 0x7081a58331ee133dae4d2bd6fb870267ae53335daba5ba70e254cf917a9cb6de, 0x27199af7f9336b0a1d3d52220ab3aff760e8cb863b013d1fafcf22e649c3ea96, 0x20d8e6862a72bd816a9678a47e39a133b3b92cb303839b2e76ef9d0b1c72fcad, 0x22cd0421a68acfcd98dbcfae30ee5b73eb73156bc1315e39d9cee3ee4ddbffc5, 0x62f28d224b5aa1fc9b6f27d972bfc763bcc85211a8bbec28a340bd126d93b182, 0x5c225c7d917053a6806aa0f6e9bc694487589d591e34448c98ad4b72dbc97587, 0xeb6ecf0b5209075ace69e883d00628d878dc6c95bdcc1245b79b7335edee3a1, 0x55704f619eed7f48840b6a47dedc7378b80e33aa67c76144357b9919592a12, 0x221540b5e0dcb2a24dd25c5e9a2e8c3660137a3edc527cb3aed7847d209312f3, 0x43c001ea0d0cbf145a792dbd1f2fb481ce11f9f8aa91c4cb2e586dc98211307c, 0x8c6344fb137dccdf466829a9895982da896fd3d53e8a1d44b8e7573800df2f9, 0x45671dadba967d434b717e2e60d8e048c1856c637c091bc2321ccc3d25e7c1b, 0x2c5f145b73ae734824f2a4c2fb77f10c55633489a0b5778f20b721f47ad9c5d7, 0xf667a7b493e441c0cf1a494aa2fa12e31efc022fe9eeb2dc67cd47cf2ecc0e2, 0x18433be2e0f92d3d57fa5f18af3b9e210ff6d29c1a4b5b02f9e256c6f11adc18, 0x374359f2ff1f8202a5e22c06a70446c080c60837245681553bb628b975ef0b75, 0x1783c75d70242538e2d267f234a007efaff28986de353e61dac0313adef44408, 0x32726b77987620935de071a57bc689bdf3bf26c33d1f7293b9885be3fb93d94d, 0x3de2b9b05019de32a0500083b3513ccd3fbfc0ca70b4a178f4a6194fc9bf6e87, 0x50d27c06f7944ae8260f5cc92b55706e9f83a8ba91cc294935be0e2dfa8ba686, 0x1b9b43fa6e008d3a4c71d136a7e88bbdffd281b1079e8527aff0c36e7c5f6ee8, 0x557da833e4a68700672e7c099e1d438c978135433d9f57046c6d9985ee68910c, 0x312d30fffeba7bd4cc739741b1582f667a7d8858bcd76d4e4a296c1e66ab3c89, 0x517ead840edfee47cda6d836a7861700f701c218f35e7d5c0ca4e31549eea67b, 0x3b088a4f6b9966cd3378b7a70cf345b7ada0900473c1127ec90c60a978e7afa2, 0x50b7e82246da8b7a1a4d92e3ec962add81edfddb4b2329c10e84b463055ae8b5, 0x1b675e223ca8ba3e25fb96f645c3e3983fba7a4f754267540e372d95315c0b7d, 0x218b534eeb119d362ef52ccab6ccec2a2911f39ee410bb768fd2f463d59e24d9, 0x1b160b4c5932776c9fc07ae3ec4d9f7d01aa07a9d1d5f85e488ad7f6ebc5d02, 0x1bbbbdca82c5346ed20cf44cf58dd6342ef7d81a27ef5d63c4dbaf3d0a22a341, 0x10dc1e2e52c9c195114f5eb5f41e49418b3a1d1d7875f71c26a5107a28c8c8dc, 0x1e2cd1d7fb8a019ceb3bb8bbb5bf50c401a59408737eeb738a74789ee58e6715, 0x4310ab7968b1d7bfd42d9518c855b1856eb00989e78d5d0918367823e7801fe0, 0x36b523029c0258ce35200bd9ec8adeae09751ce8ba35dfb57a9a3eeba6b6ecb2, 0x71b990133bd476bc5da006d85b5283868497f3136321f2586afe64d25e3c4d91, 0x2bd7100257535cdb3b48579f545d21485a6ce70b8e26acd1c4a51716afa347b6, 0x488a05db273f02fecc2a0b0a4f2d624c9dd0a52fe756fcfe264965ed9ec247fa, 0x1a2f73d5cd5627258bc81ff0d55382f5e9368e348c42640cfba76e4aaf75a930, 0x2bc382d94045d1e7f1a2e1dc049c07257e2efd727a081b19563de0612088707a, 0x3d459ef4a2afe8d6ee8984c468db20199d98f477ccbfa63c741acf88cecedc78, 0x43addc36b40bf0354c5139183aa7db6f1a9cb47b27452d5e27765146b13c6ddc, 0x216cd35c0e72b82474b802927f0bcbd37cc8722f1946a482d92dd698392396c1, 0x491a0758eac70b1e40325cbd259c5222a38e0ca77ee37f17a222cc192f8af0f8, 0x2b9582b19cc131a17077eabf71f1367048b7f61001be15cc2c357f8f91b1bec7, 0x3402f74bc1302dadc2b1a2f9cb483a5131985ffcd344daf4958fc08d4a212c96, 0x18de87298fd64c72e18c1626fc803aaf468ccefca3b64f1ca03868b6034dbbb, 0x2cec02330ce34c3bb1983c4a05d1175d798320669fb3a6ec27aab076c5b61159, 0x372915862d7d7cef9452330ee1be71aaaad887e11cbfa19934c4d1fd2b922c32, 0x615cae69f7d65832a3465c2b8a28efd5c0a58ad2ce480497035f9c0f5b24133d, 0x3267d553130794310201981273e1933968a8875fb502227fc251b341a4a2c97e, 0x68cc1c985ffa705ca5777908a836626accb3670de8292082bef73828f178d962, 0x5279cde1df198b8c9429cecf41c5d5fe6b12064e2dacc60f138a376ee6b1ac98, 0x31348135d11154e87c17038f99f2045dd41faecac7d8f55e56b55eb7d7de65be, 0x1ce95f9aa8b1d9156d59e99d9f341a0fee17346b3cac211d001b5ccbf3bef9f8, 0xc913ce9678d60eabd132cb19e54bcde0d81560a4e51fc4d4e64c17f0a55ea63, 0x1ad21d3884c828a2736181e97c8d51018d7f4617b298abb0f025869b1b19b340, 0x1ce1d855b1821b447c0ae07dc1f9badbbed4d00d8be172d6874e90e0bf41ee84, 0x2d18cc03a00a3bd526f277665f759811b66ca075ef61e1c65329979c0f6c2455, 0x6c0d5c2402eaf1441016ce80bf5ee89f7848f5467580d6279046e3b142f0026e, 0x3f98353ba9b66adb145852c832956e6368d61951c07261115ee1d63c12f62b85, 0x6448058f2edcb194bb85974c94cf5076984cc3305cfb1464b6f1e41ba75274a2, 0x26a6ee2927e8f84c88d241e54da96f80a32f3b1536702151da7ca30a68c03c82, 0x354cbd4e310f109f877d764933d721858d6b32de1c31c41e22ff1ae24134f948, 0x668372761a6809e87c82ba18fade6b62c5bdc27da3262289e9ab433e7e5641a1, 0x60ea92e3486705b9aed0828f62a89ac041c5823de151d7bde77d1e85f29e3cc8, 0x535c279b313dd7abe2d0126370aa9b626f87ce1e1e6683c55182a08d8a969fc3, 0x53d2b59a406fe3fd4a6cba26a554b61af5e9609a61bf2c6a4d17848f51e262f4, 0x293b99747f68ba4c41df3ac370a0a161315825a6808f38600c3b57e14391b30b, 0x5041e1266fd8983034cf1c2b8b839ce198fea84fee55d9ed866cf4efcf47e21a, 0x5391e5b6563fc7c5ea1fda513f9475947a3ba2411c0b727d00f2daa1e10691a4, 0x3819ccfbb4f3de52dcee1a8b84e2007ae593c1fead9ef64d8c312ed08863c0ae, 0x1204569a2d6ff2f7cf7896592c6a3808d35081a5737290861cb79823a520dcc6, 0x231674ddf2cd981604fcb7324900100ee9eb17e59f144ea8f902a78e2f93af03, 0x51f0b83840869d4aaf8cef83437fc02559919ad8b1e34c1123093b4d9f6d0214, 0x19d39e5c3e8758c7f11664ca0116bc7eda81c3c1ec7550c8e93eb685674c5c4e, 0x649a49282535319270d77222b35eacfc7225b088eb3941422981ecff3025e505, 0x5cf438d4bceb751205afae29f4d10d6e571c3b4ac7d7eac07fe416972f235158, 0x32871423e7f40adcf20918bb1b6cb9f84f25ef039a3054c1e8f2cfdb1eaa0499, 0x4e1f8498d7ba50a23019803dd7fb609c2b430729c00ee14bda761babb49dca87, 0x5b8a484af9290ca8c43a2097cf00d76d44257702a5339611481689e2f66903f, 0x35d8389629c421fcac95f270c2cd7a3e2430a9f54314e7db81e92874d082687b, 0x59fb4090471e1ffb1712b7778cb80efbb37a25a1e6a6832cc10f1508151d10b7, 0x592756b6960e19f41ec9727901fec536dde6bae24957748c96426bf92a48b66e, 0xa2d346da2a4b99f088f0e1d069f45d83316330761f7f27cebfc416e357b5a3f, 0x4f76e7937fae8e9da9dd3f1e79207dc638dd319674952c4ae8be63115343e41a, 0x11119aa2268ad72ea6f4ab8fb59422acfc99de4998108ea42dd90c60f40a8d26, 0x77f2fc523f14075bd2507b0257c5f74189c30744f4dfcf9c38f5eb5fd4c540a, 0x1f0a61a2d9495e4852203b8615c3cf331962a59bd3a4f0bdd0c5621bfa09db7b, 0x3bb4bc2c3694eeffa434e9b4c4c68cbd96cb527a872f332f56e960b2fc9c8cf8, 0x1168f555e67d104be2454726cf6ea2bd52b6d33ed5b5cff4d402c2b730eeca5f, 0x8e7fd4cc4ccdbd31a90d985ebd723b30a5cfbb59eba1f3235dd529be8f6731b, 0x649f3cdc6ae914104ac5072e2abb25a07ae7d1aa2bd26c25d9c16ef8e0558e09, 0x409a7198bdcaec46c9d6921123c4fb643518f2e224980d4846fc84c803e562f7, 0x27b0a23db7a823784878462998553cbd938cdd07709d25b48c31d2bc58b203a8, 0x5b08bf149236eaeaa3076e9d60be860de9947e32d21f1e1ba0b9aa06b8e2ee6, 0x3e14b4ff6cd1ab11ffb477f32abc6532fffeadd8a11719931386de9d2ad0e412, 0x4463ad18b87a3223d667e71fb36306109d71d24eed36f5ad9a5b574a7df84a80, 0xe8aae1b0330356edeeedf8464d5fe550d2754c00c01b846aeade3dca72e5bcc, 0x2efb6f3a1f3a011e80e752f61b478884993faf70ba0d58ecb238e7646582208f, 0x32bebc3013bf06e5b48ac29e8f85bf7fedaec298011730aaa0f2e08ba95477a9, 0x4cb10603fc050e84a2ee965f8d8dc19d2e1e6e8579452ea0a3b272487dd0211e, 0x4470c467085144fcf116762d70c09356fac6141a192bf19f9d84a33b239c9802, 0x4e64bc0eac7bcb2a6f129f7ac930283b3f1e9130f32a385c069990783874468c, 0x454ec922ebb13cbf1a797a01b88ea6a5f4163d6274b681c53caf5c6885af9aee, 0x5b48da053086738b53e3810e00036abe05217f835b2a98fa43fc77edfcee2fe3, 0x2e3aca4d0631d81dc8f8dfbe1c30b4755ba8161b5155b31f2937d62c6e4a98d0, 0x11193e079571665dbf48160c2d8b27d32fa766fb0d2523a7a3cfa1f1a978c218, 0x1e944089f184204719bfc2c449e81e662c07b979eea0fc4c919c8c4e3f672e61, 0x640fd90d9826e2f0a78c2e0c62a56e4518da61a573e6ec46b9e325d6ff220e64, 0x4a67858538a07076ec7d7a62976f5bb5662ed2b49abbbb19462999acd6b2d926, 0x1a7222273bd606bf5559ed06373e78236388f36e423a9a3ba855395be8712918, 0xf39ac81eda173ef4cb967c1a76779d2f424150df41d66bd6082f11b4f21c01f, 0x205425cdd56f038a10ddb379bcc07044beac224a098cbf5977b0fd27f3b8d8a4, 0x3d3dee2ca59f6f1acfe51da0b1759d6ff90eb81bc97acfee8bbd3897d691ced6, 0x65df18507af4ad95b15959b54c8a61f6bbd0987973ca4240b9a017e8672efeba, 0x256332983ecabeb31a9439106815e4f6fa544f83248be0f57f9c113510fae16c, 0x6b29b7bcc40466c99a1c7195daeae711c32a871635bfb5d95d2d4546093ab520, 0x35172d987820e50797c3b30bd4ce8da777a128f556d2a50fcc88785d40adcc45, 0x46428ec16acf0ae53ff37ff4d0a418354ff1e395458df0d6f329f5a3d976dbe2, 0x63c72aae3e0dd64255d84546fc113df07a3d1018c7a4eaf0ac3b229b11671414, 0x2b1bffd38a7dc2dab95264b70e6b682077e0276af1b9e790a64c489549000e62, 0x3bfd663c384671ac982b313f5f5c2e39effbeaa077cd297775d2596261956b22, 0x505d867c17d5685a4e869165bc6a25d86fbf71ee28d105eccd5fe88a02f49ece, 0x69202bb297345d42c67650bbae08b50e8edcdc02c6ea20ad5fc25d80a3f3ed38, 0xe25ddd57c65fee53d5f9e73112199062c1c91076d68aae68ab4896540f87234, 0x10473509f73271b7b1e2b327d6572ea42f3765a469187a29fce14687ce64717e, 0x336171d18272e519ddd52742f37a370455ba67f72b3d29a9c16034361b2f83cd, 0x2b68a6eb75d484c3a4eddd0ed9683d5edc4bdcd54c70c4194e3579d81d9cb27c, 0x6815fa512e9280fc5c934ce66669e795a0dda0eb9ccf1addd8ab2e3c9d89156c, 0x51d3c073d429f7220a89906c4f8ebccefd01d0a69e53abca0f242530ce0eaa1d, 0x30bd7b4a92c37a8a95532ac848b67675b9436504c332b634c853222751fde613, 0x5893bcedb08b522de05d0b65d8df3bef044e10f0cd1f5fc767a286c7476cafbf, 0x1203c75bb7b820e13f00a06b8836569811896f196f2c606a40a1d1f4ca9ee393, 0x5e9820d027f620bb668dc4e52d0afa1fd2db28b3bddf7c32ccb68d80d66932d3, 0x35c98f23658a6e0dff112b1bb4210aab9c15ea148aee51fa6977e07b3ef41b3f, 0x529fc289945b28ecbbbce4ccbaecb24a47a0274104ea19f43f32b99109cd584c, 0x3895aea7f68103628137cd0a328429fb8e313054990c3385ccbbc10f8df8be20, 0x5fa5c85ccdc76a42e939b207d56766e160064df475743ca2f6622d510c97e84d, 0x2162ada1ac878f21fcdbd4c4e9b0e31f8e6bbbfec3e0f2f32a9d25687ad9475f, 0x348ed3c923636209087db0ee4528914b99821fa93e5d8542fbfe270b2a2ac5c6, 0x7331ada9bef3b1d2e59d99ff785473980366ff18449ff028ac2ba9177c37f0b9, 0x53635d59c84727bdcffe94f514cf1fbfecbdc3158154454d8491d991f931de4b, 0x6b1ca628384b78cd5922b249726f90c3aaa4cb710f0c6f9f0b9e28af4ab55dc3, 0xa03791f1cdff60674147a05b478a253aab6362233f7913df791b1cbd9ec602b, 0x194a4c1433c2de99731385fc73a0f4787d2534fee3522555a565ff4e2677b2d, 0x4a2d477424482626e4eca2ebb4215b234f8d04ec081d947d22653027f24edec1, 0x3f5bd85b9f6d34aa3ea98054ab0732afcd744425d245f0c7e9f3fc0426d48620, 0x56f4f6dd1dd1ac97b291d7240dcaadeb3b02d614727601c4cb9366b9e2141828, 0x2b517d38b2e78c8b519092969bad7e93f24cef3fa46e687f67e7b59391dbe8f, 0x4b605dfd5fe0f20ebeec3a9511b7aab53aef1ce1a9ae7af32de6cc457cb75323, 0x4fd9f6a213e81e8bef67533994051aedd8a436ab3a468d49a83efa3f5f69a2de, 0x23b4237291af13fd9cd0c278313c97348c65ac786a7abdf31fdcaf5acf36d623, 0x5b8bc211ab119c286ffae9ffabd51eeb01736fd4ff3948e39e7ad6afedf0aa87, 0x16513a48a8689c7c2201b794d15024402939e49f6a11a19d55eb92b64cdf76d9, 0x54cd4f6e26f219ee0a84ff3ac24334b6289704cb07d6ffa9d46749c0a920b3bc, 0x6131ab7070db63dfdd9caeda4ac03f1a9ac1767f19390ed6112d1f4f354509f5, 0x51d31084db4d41dedbb2cd04efb1d27f222ce06059d3d4fd0edd7d3fd726c36d, 0x5e6414ecd3d0bb4774281f2cbb5ad3c8b71c2aa7303d588d47a58ffa5c83bf32, 0x2f5987e918b0f9f6996d84758970e877acf0446ba7678bd20070b41f4546933, 0x2e93cadb730637959d367c90110a5fedabbc5f3f98f3ee8d15889c83abf3b0f6, 0x5afc65999341ad0dbf762b900a9e16b271447fd7fcb0439ae12d82b99a0c3fe0, 0x1e54048a7553cecb4c8062baab462365f86210dfd42304b09d9399b455c307f7, 0x5ed73bb0b5675d4a2dfb1a6503ecbd7261018c1a8b29ca5bbe043b45416c2489, 0x2ffc4b310808f11b7a6df1216e208322d4d192d401e7cbca68cf112a92db3b31, 0x6072760469f88ce6e06ecf7c62551120dd93e7e6a1abd5d0773e71ee9adc46ed, 0x7321f6e2144a424d8f62481f3037102473ba1170ffa8b98e0504ff7142cacd91, 0x45a892b36f85fc89ad9cf673f91257c6c55dd2b874c8527d5d165d46b5159a52, 0x2826b7e8bc35a0e3eae6bbcaad4bf49a086d715abb9c99ff1a6e865d1ec8caea, 0x432a4dda466e6c26ed13f471aacb68eadb54f7c7de712033e9c82bb3d46b51d6, 0x61d2d4e00e20b2861cb5be6ee506f6c52f045c44f759c04a64e8664d94dc3169, 0x1fce8494f52c30eb09cf79825cb6e199364bec641bda312d5543f9b7370505c7, 0x2450eb90628ec5d6382721f40b74db7b810385f816e04ef35e1384f5040989a1, 0x457eb27396d7dc748aeb714df433fae3ed4b336c81c03197ede80f50e693919a, 0x26fb576e03a3e8c0615e3f42b8cb2ac5ae0cd0bf89a11d5b0dc2d4f4ff46a466, 0x23700ea1d716863652e8cda1f0a540ae37881fe157434add29e8de515350db67, 0x15125b8790f2a41d55e0d5e8cb6263102f2c04b595f697ea8860258602f3ef82, 0x6307b02453a7901accf455bbf13d79be8b89f1e390aa30f7d60c3e996db1c92c, 0x2fc72ee88e6609a43f952edc9cceecea5a84c97bd045c0e25f93877d64510f3c, 0x381829a4a164b7e86eb5224ae39653497cf2a289258d97e0c7551ec6932e69e, 0x334d67ded2b61d067819b3a0251dc7687af14922ddf050fb5e3bd324767bdef7, 0x4c56d06cd8794c8fe2778efb201879f4f536d9c31a65621998d89e7fbdd43da9, 0x47ee211dc02598e6904a8c30ee3c14967843205589b723cfd7b5da4fdfd4a40a, 0x1bbb7ce15a8fce9633567a282789994c690e35bed4f671bd16bef046a17f11f1, 0x3760503f5abd300e52eeb1178396cbb49faf8b8826ce9e24c9d925dec65dd57c, 0x11ccb027b65f9154420599690cc5378153a5859fa3e4a0310e0227e0b57b263b, 0x2815c19cedcff284e93b7fee1b17917222989fd197af44a26d67880734f2105e, 0x64eda296257f367e371daabe2a7dc489606c6c51e5ef4afd2f7d9dfa102210fb, 0x23ca680f3b6d66b60f154030311fa0d5a4af5499c76b06cd4da50c8a98312f19, 0x530b046b9d32d650617319f10619c3062932cfb6661c58996a4cbde2be975b4a, 0x31c39209459eab98f2282f6069bca983d426478553b9e09d882a0dc40edac8d4, 0x79ffcaa55b423266a40d1ae3865054c7a6beef5f8c3e25c2cd2379df702f215, 0x65ae798e1e8dc45bfe6fef6885d4279dbc558df7985b14dc1fb2037527b1660b, 0x6cddb9601d95753298e0be278f12d41f4e02e93f07195912111e884d4ec02c8c, 0x38e2c088a5f17ad7fcbf27dfb082e28635b9a9a4d68be9f0741a936eec4ea85b, 0xc517f2fcf3342509224a7d0fa3240c30d75949f14c7b841fd167f1713105d98, 0x1447a41ee4ace6f3534322a220dc45ed9ace596eb2516fcaa16bea398a41bde7, 0x48a3c4ae71044ba0b43a32af08569a7d9374afce436202816ebb8a647dc5dfc, 0x25a0c0e86dba12803836a1bd91e490142ef25f28f0c6c0451d0bc285ab2565d, 0x2f0f42909861d3f750164d752c29ea928b7cb3936718e879f4fd64a399251ad8, 0xeccb40abdd8375180638face4c6edcb3d6028b98ce8e2ebd83d3cb20b326af1, 0x1d2d50caea76dfb23bacf6c096dfda1666dd2ef0bf11f788e13bce7d7b2b85b, 0x38d4bae44cfce0b8bb10daad1240407ae2381293306cab8c6a328e17d009e8, 0x174ec630c98e6e8c797bb2b94eea67970209c7e10681e809ea4424a4e513991e, 0x11e8eb5534dcb8df82a0a901be904864540c73d667cccbf475da9dcac91981ad, 0x37322fcc7d1359c2bb6a01c21a616b5e057d095a656e494b33138f3c94857f0d, 0x3a106e4badc06c2d8fc990a60478c21310fd7c25bbce8940bc9654fd04b3da9b, 0x28b807acdcb2df853644f5e75303db522dfa2e0eee9ad8f9a846c1bc73bb6827, 0x5568d93431c41c609f84a66b26afce7dcdd1e90e999577343095626736dae4be, 0x624d782926aa0d7381f5d7399a409f58aaf07f2a3341e4d9a76e40449cfd6cee, 0x69b846c945aea4d243b5a94452a7bf0f3751c3be9180984fd6f9ec700e622f06, 0x6ff93faee5e445f61cf890462c584ea4af38655dffeb152049e927a9abde03a, 0xec8219e79a7f41534e3ea2865772e29ae0d06e9799b798aab9a698883d359a8, 0x6ec6903673f11df6eee66b4aae0f4baa07e00170f9c670024463a576f3db6ee0, 0x1af1f6c62542576d03c831ba151ee4326508ba411d5ec8e9f3ffff00bc6dcc5f, 0x2ac31fb8564f209e3ce5b533b39f5c499e5034e74b94459d17f878518f6a7ded, 0x49fa4c8a132a6e10c83a0c10f786acd91c54b7bb390da528395e977ec0e77277, 0xc489792e28a8320ef9cfb97727131b6ce1bec853ccf92ba2265aa9bc73034ac, 0xc7f9f999cb13af2ecd1e73a40c85abd7764a2a4195b3946f854e326c8e14b8f, 0x300da9904b2a0f6986c5c982b22a194084e533a11f3e22ce31a0efe222c763c5, 0x33be5cb1ea99d93246cb8aa18b3a0abfc7cec5dc58c03a69664915667e5d13b0, 0x3838d4c19f0fd21257fa7d1640ae347a1ce55e6f106d0db5be3be956f2fb0132, 0x712ad50a27266504faf982e61246f144304a999a7a5da0141b564d105afe0a99, 0x19407bc81f391106a2c50637684b50bec50f6eb445d3537cd140019089c93f7e, 0x2d812889a3df7871646eba0540e885e6eb36d7d0b1d2af2a9f0925f733da6a57, 0x4cf0abe99e4690e9e62dfb3e22743ea11e3a2eb184e3394e0a39e20a7ed0c9b5, 0x5aae21a2fbcffb92798ec0ab29ddd3feee8ef36b9b67e8da200dbc27ab079219, 0x3ef67b09aa75673b62be1391d7943f1696d943c902f7c4906a422f499b5572cd, 0x64017866c0404bfe39063b725dc6c7cedc4e83d70488f78b0d6d155a86362137, 0x70c14c2c85697ea8d3ffadbc23a769e17b2c659352d2a1da3aca92ca488dd0f2, 0x269dd8f865f2e1b6199663b235a138ff10b5410a847d9b30bb43a2b8639817f3, 0x20044623ef92bdd95cfae2d57d2c764995b49898477fce5d1afc9086ccf12a5c, 0x25fb624e27f45a9191ed66952d11c2216f2061de50b8a7f77f69d3bb7c3fa5c9, 0x619d849b53f74e512966a6abc0c98682e3b8e5b7cfeece00e013041a82827c88, 0x39976815e735ef6d6f7b0ec87aa628f9644bf73819b2412184b8fc4c5abd6f3f, 0x60d4930de9fa53d7e4e0a934c3d555f8dff88fbad500307411256a7425e79c1e, 0x16b376e7b739a6e1583f7c0294528b2f237a346b784d140256efc4cbe2f153ab, 0x5064328ce3aab1be5d2bf7f71d86317687cf5e880dbb50167db98956a48ec460, 0x5f3c758ce078a9f221854df90197e446dd14944c5e8cc55c4081c7db54814d94, 0x6cdb2957fb3d46add4f43831d0f5c036dda4b5d50f6600e4bdd1eb757e9d88c0, 0x6b7afc7d682b7a187e8453f09960c8422df5a77da8d946a6d5b1968c2a2fff86, 0x60de5ea6bda62944a7044e0594e2c4bd3224fcf3a258b603e1840c6af57c5852, 0x4f20917da812e908532e0de6579c401bc4d8da8da89d72930f887a0161f0bbeb, 0xe7f04fc1054a6d50de723e5bfd6efddd74eb4b2d671e341f3eadaf706c6efba, 0x24ff3c240d3a9be6ab6fde6d98fc6c4e13d707140753ac83e5d4a91a26dced56, 0x4b6dc8279a03eb8befce09e3f859518985d8afe4516fb1ad0d3e5591c9f2c56b, 0x2a3b84de7d8cdb7713b25774e5eab21417e2fdd0958a0876c047f0f94c432e70, 0x3fb0c0e42465623d60865ce4ac1e8078d04a1872f19d76fa55e92b555c4864b7, 0x18fe249779335c0c12ec4a61523f22e791a96d2e9699565b35483e51160288ec, 0x1f5d87654e9725672a22c974ca7ee25339981d195f87fa1529da7fe9cbcaaa59, 0x6d087d0b5cf2b33d9588be708e1339ec5b0dc569d2e3276f5e80da7c6f659553, 0x277496fe1d4ab8799c87baa7aefcf7bf147b7e6954d74fad4fbd42a27483fffe, 0x22f8214df8d95eaff2173cf206555890c7ce750e83692a44e9ffdc7a162d2b51, 0x27e24dc246e7e05c96e17ce4d295ad3dd70225b0ed054298967b80ffcae7c8f8, 0x65413e49ad7532876d6ce131a8a6c93470e13482cd06d466b2a0d2730a68c518, 0x41a2aba2898a25cddc760db58a84c7f9035d01e8746b05d58839e7aa9d26269f, 0x3cb191538daa3b95c95340b37ff5baed56b5e30e58dd7e0ebfbd3690f1276467, 0x3d507de4525b39c6caf607f41e44232471a7145c7aa6c28b0e978bddeda240d, 0x2916001728cc95a790762f1afaeed1cdd3f3998461c676a77c2d7d9b905adc96, 0x1f1b568132264549e1ce7a17d654cb3d185c204d2a62a20a1ea4f0b32e31f7c4, 0x68699708a27a0f80c68b1ed2fae96f6c3e244c4c78ced8483be38d99a1ab4376, 0x53f0f32ee19e2e1f955abc0fcf75bc9b0801e0d3c32d93b4fc6a437251834a9b, 0x61e2477ad7c8f0250bce8057392a152d97a4dedc4ab6c4cc05a628c7038cbb0e, 0x6f722f4a32f64995de4df215ab0d5a54007db59f23b8ec102ab127348e001c94, 0x6f485e23604dccec631f0297dd13b9f2c54a68ff01224f69e1559f0a7b1843b4, 0x833492f82c4c4a51b977cbb09c77cc6d29bf5f31dfe7f2c3c97cdcfab539c79, 0x4faea5e18655ff956629426d2c3ea45c5770b2ae581ecd275fbf9c42768c9601, 0x5de0fdcd316dc9b4d2b31d6aa97542d275f23ecc696404614fb282f957798ded, 0x305b63fda79ce7d4a841f6b3cdb965deeffff8e7b47e8baf6069bddee7f040a3, 0xfb526ce83f84af6a050dce801fe7c3836fd9040ce272ead760194097ab8a4f, 0x53d921b1b76030a30eaf409c22bd5b0cda982738b147212e9cd83b2a1e0f5070, 0x645188c75e28bbf0f2f6ffa72322bee7519359eca534c3dbcb26c2931372aa26, 0xd83c4b08bf982bf06cc7029eb728349dc61e15d9724c40e3e5bfaaf5bc8f1e2, 0x3b491196049a55db2785831ccc65312e27a0c005ff30f6459c33d9ecafb257db, 0x47db324b6d1205f30781c1851e5e9586f2372a09e81828e37b4c98764a0661b8, 0x1ebf4e907cdc77a12a1dbbd0d1f72a89653d6cdd162d0fb752cd1c1f8140a, 0x326eb9b32b26410fe7b7cdf444f942978597b70f07b83756ebdb5944f4fb1c4a, 0x477128e9057faf5a8c347cf40d1f900bf6ce53e938452f75436779608cd34ae0, 0x6c251ad5c78fe1cb6b5270691b7706d96465deca433ac1ff1828182414a61331, 0x676ee5028bee3641ddbe15a246fc07e6f7adf832e8d78d112a6f295e9fd19bf9, 0x42b630406482934d5ded00481ef9c9850202024414632400e96605ba0bea28b4, 0x204ec29e8689dbe8e026c4bb58dfd64e77525c4f04abcf4d1be58e3478d9739a, 0x260f2ea13c311fef10081ab88885444203c597985d9715564c0ad84b7afc6dde, 0x60721a98c48ee531665bd9e27fc3686ef669f580bd5cb52b9ea07d5cd2e4c323, 0x59c03f44542b0e0a0e2f39ece91617d115334e313f6d97e24be335e5401ad076, 0x73ecd8d0f0cfcbdd4df7b8d3610280babc8dd029de96cb8c1b9d20794a13d40f, 0x654fc8c7b137fce8e826b23188ceaf27dfe75fe43a3d38679e5503d79f20e95e, 0x174f3cb0b2f2b3ee34a1f0489fca26a5b65b6a54593749ed3dd74045e27e79fc, 0x209266fd1fa28df650a2f193f8bcc6e1e1e8481b1e7c935603b8129ddfa39c7b, 0x2dcfa80a8155b83df9451b0b5a5a030fb136c43bc8c7dca3b7c0fe5e4aa27d23, 0xc4dea8e2522f8664a82fbc121931e698eae4ac558d4931678f612ac0d6fbe17, 0x5ffc3242f054bbd619ef99a6eea6623fa86616f80970eb85b542ddb292040185, 0x73400a28bda92b354d8608ca225ef2d955ecd6c2ba9981ba9a140759775df3b5, 0x513cf425744fa8c55b3e88cf565f3e6dffa89a1b19b8196beb2536d7735ddb8a, 0x45959772e84eba0f92e43859140e5a6b340495e4c8caf56c4ab3136f4ae28baa, 0x5ba4b5c49ec4ceb9e5de288c8b019ff55c7ab313e9e4cfee1ddebb6093139ff, 0x5350cfe55cf5c24822c7ca03131ab4c111a820eb7b84a3cc1cecceaf9521be35, 0x320fdc824a0c14592baadaae9bdfeb049527b1fa5d576bcca2b817fde8a81de5, 0x3305f7cbdd79588373d0bc257a5657d7756800f9421cb2801c9e2795201dd726, 0x5dbf836460b98940e782c695a8a7b1d1d0eb251fcfb0575be72af3a5b1926df0, 0x33e20fb7bcbc4250e5ef3a134391df258724cf5f94233d9569c6a0fb1a1acd0a, 0x2cc34f0fca965c5b0201202eb907f6482a6ea9ee6d4d52f69d06708c06a97b56, 0x65ecacb6611f31ca952c581f16c630d003d9041ac1115656b77146e4e20c1ac6, 0x49dee2c61348b74d23378cf7acdc4e47a9785a037ce00fe4c802b2c974dbbf35, 0x71c8d5c9075d323c8663ce2f90a272ba1d037edae8f343a8d18296747f3f4afc, 0x4d70444c277dcb0f092e1d4590e632927d5a9f0f48dacad3b489e798957f49e6, 0x25e3381b431de82dc3117a4b12823a55f488ac340a34c14ad51fc400f62b1f00, 0x4950ebf031b5d96a51148e108ab40745f31ef079a57399fef684901d1aae51d8, 0x2345b0eeccac89491e1cf1a70a2c2daa10629c588f3612c1d08dd2639c48e65b, 0x3d10fb91a971e3c1ac236ec79f33ee80b44be605e16b4a71001490c85eea1581, 0x56ea0bfbfc297c4ba4b776d3d2aa2339fe350f6a1631090abdd9ea22c60f4f8c, 0x3581cfea483f1d245c067685e6a85e05a252e94308398653ff93fb061670762a, 0xf2803cf57728976e1f8426acc29d15623ff4179a90dc7ce74cbe1b8e3d59ff1, 0x4a57c996dd736b15cf73cebfc8b950e1642903ef82cea0c5324324ae51f2fa2f, 0x14b53c9adc92fc33dacd6550a8cc4fe7d649f400bad8c4b0756286f19f00365c, 0x6ccb31f5857bf37a0d7060d8e1885b91b2c07a0e225dc5896002909a9c550863, 0x3739b7993db5ed6911023e13c14837c7d4c46a51c732eb378b134ff169dcc479, 0x6ad90b607f7bcb626219775780eb1d82388af2b3d16097d9e2288773e092adcb, 0xbe7036f18aa281484ea22423908ca183e6f75466a1bacee66aa222c27407636, 0x4294b3a231a45ac896ad8b08594e462455d60bd6bcb6fb44c5eac326be0fdd04, 0x59de5f7a0094ccf74c4ee649548f5253ef96dea9606ea5616e13ce8209153aad, 0x4220fff3d43226160f997ca6ac8adf4ff380f620a8cd2e72a256e494b2ec200, 0x12ddcfd565048d74462e5162272167c26af8f90fdff5f844ffa6381c44cbb282, 0x71e3bf4129492a4cb81e6bdff7c2c19b8f37d666fe82265b579d090dfad7790b, 0x523f921e70ae82727cf5e3d5a9badb2f8d5a668a23c835e23d32060b683e6ad2, 0x3a7a66876a40833cb253e88308344829c6903632712c7d31224785065cdd9d5f, 0x54194c39ad7ff6b127e35d5a632ec2d60755470903687a0213960d5f352b571a, 0x2ad9d2a5a5787ea11734a28762a2ea309c26f3cad6b0c7912badaf0993d5cc8e, 0x5b4aa00d8cae5eedf0b42d2c18a4ea32572facfce42ed1a9cf21d2baf6d91d1e, 0x43f3d4c6a53944c9119053acf94c99aef59862d2815552898682ea2b679a3995, 0x6b46437e1d0db83fd9d7313e4986277008af5fca56155a5476633f64865dd5c9, 0x2036a61f0448036b0b586b09ae2344d8457f5c3575ba42b796fd576a2ddaffa0, 0xdc228b6d5efdb4a64ced52c7e9d5f8b4ccbfab1bd8c1da0f18987698734c5a1, 0x2493377152b30f005407a28367fb74ab8fec2f3e2ed48cd8cce9b5c7ce4074a9, 0x61861387d688c1c31b9528827e9aae22a8db50bf645620ae7deae858d75a2923, 0x5ef7feaba87888f58914855565b458e018258e6c49e79f081ca66ed1922ced42, 0x19eb1aa0a257082e70455bf5730d4aad1c0603bcd775d1935e65d051957d3db1, 0x11b7c75b077e350a4eeab33ee8285c470914c805093c46f5e4cc39298cf65dd0, 0x10dbd0ec804686859edcddd1155b689d158524f660c0538c359578b418069863, 0x2961cb648a8f19616f243c0ea17cdeb7577b33c0b33aba34ea5561f62e8e9315, 0x4ccbe463a17f9158d27e30b38fbcca5a2c0740387c112229d2e43c49b8365060, 0x2b67547658f31bf53121f999e663fd4f0e057d73d4bfdde3be0e7ad04305d6eb, 0x4d61e75f0d60645a61ea081af94dd3d1b0744e6a84b84de5ace3c90c62658772, 0x4bbed860359823617d0ba904ee07770c3421c18db58002766e8404896ab6eeda, 0x53001cf60d40040cba583c5b448e41a8d9815003f83a7a6c6b1ebd4274f8f2ef, 0x5621a408bf84410df3297998f972c3a61b12409d8252d976b6f35e670d21fd86, 0x10a9bcf6c505c4b46d380835e8859fb4f314986a33b511ae6847139bfc819a9f, 0x521cd3051716b9badc8703ab9b58f62b161f4f66faffcf3b7cafd7140146145e, 0x6e32fb3e8b69bbb0b668bafcb20d55fd0fa80d0cb13389a2c49dae8fa5227bbe, 0x6a457155f29b5125594fca91405223f8f12a42f538fa674d0b2f8a63e991034c, 0x11a54b444afa982697314fd3c26b13297ffb952701ded740306b4b236e2456f6, 0x3df3488efdff60f0c171b2859641d879abb9a17bbe1c5899367189beafe8ef70, 0x14611355ce9052312794bc445dcaa513b1cc7c97fb98c27adc84044d29610390, 0x62b22d5b4fe03c1b661f542a004bc32f37bc6491ecf3707aafb1ee93d0303937, 0x52dc20fce4ff734989ea4a57eebccd837ae484923abaae72bbf199bb17b0a33f, 0x57605cdfd70c05af70479b2bdc38c6fcefce2fdb0b8fac2c0419f83d30e11219, 0x7278f9fbfaf7c4f2fc82f3332ddb9ec6c4fb91270ca3fc2208f420aa349641aa, 0x3f7c8ba2a68b0f3db441b7125b1a018cca7cacafb21fbf14a209940be9f3f1a9, 0x665074afcbe415c46148299ef34eb0d11229f76389451b597a3516592270796d, 0x57fc2dde56053552f7e67bce9c53556c1fc1af761c79b5cbba7235419797e62, 0x59f80dce1347992ed75d7dc10f37316b3dfcee3a91e029082c5ab75893b6a5c8, 0x59164b9b86e8992aa0c590a94bcd3fc7d9cc921d9482da8a930c283821cef5fe, 0x3fbec710f391802640bca50fa2de48145781b2b2fe829c298a98cbc205e37b3, 0xdd041d35ed009362d772700e59d1263532ad751e1af729b016e1d636c396d9d, 0x5c2eecc00a16f58335395c28135d1de885ae6f602f9d99aa19c8d91390f4d73d, 0x56f1e4385759b600ea0d50b9b1b9c1cb2947dbe2d86d12fc84f5fdd96a20e40b, 0x1293899363db886301b4eeaec94b7445fd625d764005e6198a5b8db95c0aaeea, 0x557559011fb600bbc1252df8ca5bcb2b80ced27132cc71ad0c4760037acc7d6a, 0x1a46538cb5734c850a7b710b5c12ddc962d9520dffcb2101b7fc389d65b778b9, 0x40b7558ae67307e5ec81f6fbbb7338187afa1f94058a7206cd0cb532cf187b3a, 0x13001e0e449a21aea14e212e2875de2557c94546644acdab23d1be1d52207b45, 0x48cc1f9cee52f22a71d0c11245d77c4965763d0273dfd93e219d68b10f846f15, 0x1a1188393cb286d83194c4beeb453f14f7b82a774d207d51b04800f4fdb90088, 0x289a66574bf5c2ea8320da980f7abd68d893c1d47761fd5096bb21a810dda5f6, 0x2aff2fcb189021e07f9aa1ce4dffa8b52af3eb6c32fcc979f893574c02ad36d7, 0x2627f11caf039e9be881c26b00d7664c04fa268f89ba378e4195a87ce6717cc9, 0x656b39280240e7c393193cd47cddcfc0df14114dc8cbaf0a839b8486caded68b, 0x314544d514115a7bbc152d895419186bd09906f0deee69fc7cbdaadef0056be8, 0x6f2d0837896e523a53aaa08f7b2093a95e1b68cc7e5a8bc068fc596f5000a808, 0x3e58b6e4ac05c6f67c0dcd1a0b5a8bc51c7ea4b9f6027c8165115b81781fd201, 0x390495df4c05a29e8f6b56063424591e103466eaaf57ce35bba5e2eb0f4d27e7, 0x3f7e9654fd9362a1372de6f242b0f20baa1f23bf5c858966e4a308f1a7a5505b, 0x5ec134771285518eb7773532d5cd23052cd1adf6938567d4902ad5d9b365f106, 0x6d85942e390f84dfc3883907e4902228155b5903cef9f0e27cb0b9c32817366d, 0x2ccfc2c80c051289ccabb8f6d1e3186d74619a03e4418f0817a8f85d98186b9c, 0xad694510db133b75c017416f420fad9c9a3f4fe42354e021fcaefb8f328dfb, 0x5869ca728fbb5f1e81ca2f62eed825c3d70f74adf9afee0207bac22f63921a31, 0x3400461b24af9dbba88d83cf8f5c7d35232f669f6cf29c0308e6ca8f858a6d37, 0x5c43dd6dcf0266133661284f5792df24c6a27f541908ac27d754d57bafddd5c1, 0x1fea427f3ddd34d18b83db5f1abce3dc38a699c14b28d1bab68c14491ff5cf5e, 0x473684707c15000aa09de2f722a0212cc35a46661c981112d13bc90185431843, 0x300be2866b4a13f825d608bac7c058ef5d34bafe83ff3bf2a65ff76b131c41b8, 0x41d22a9980f3945118c8b9caade84ac376364a738e1eb8f7f801a6f66b8d7af5, 0x5fb8026cee20c38bd53d5f1c17ce1749c002aa341f15e0751de09baa2f60d437, 0x2449ac08bad105bc44d3aa3aa0d4b716bda1ebe198bc0fe1bb5afcb6ac48a5fa, 0x7354c45e52bcffcf9be5f5c5c981adf39d0d8cbacd3e6e28ff8592df4a91c104, 0x108550e692ba341ad30a6b4eb1f2e88c746cb335e1ce096d95731d6002153d70, 0x159e35b5c3a16149a89ba4c498aa33ce27eccbaa5ecf3084541f1966909fabd, 0x61e91ccce203d33b284e0a1e98af51e382ad85af13a67e26b430d17ff393dd8e, 0x34d99865940d6267229e78472084be2b6b7e9545ff1a8c956247ea66851aa969, 0x531bf8a1f5b65a1cac370b95bcbda169db0e806c2d2576c331e1b4335552d4eb, 0x3f76c0e7482b65097200b08da483fa7bdcf4f7af049381b7650bdee6802ce9cb, 0x4ec4890590fb32b0d12973de49ac8bc418f341d55d06a907cdfb60ec9f6cd2ce, 0x4d8f878b547b6557e4ebebcbe25346656365fa774fcb9f28d67df3752a983e44, 0x3c34109e6571eadaef98a848adcb7851dce4722aeb496fb0b53a8cab1d14d67f, 0x2a4b51efa4fd5fdf3f202a65d7712673bd18fd991d19bc96061452eeea603289, 0x3e2ca3194a9f362f33631da1e0fce39583a86e64bebea6cf414699e78b2292e1, 0x2bdda5671ff1a4ec5633c55918d91f30664d3d377fb0fdd2307176043df3e027, 0x5be2c9811ce7fe2ddfa585825747aef47987fa46167f01c267c29175ab548152, 0x5ddd7f0d38edd650cb0a8e41ac1a770403fa501ab35588a0a4e8fb7dfb16856c, 0x3b4e5058e2860c4cf1544b6da3b701a23aed9cfde63e646d53b5c829746c22d1, 0x457fd78325a70782f117d67993dd4ef5ffd7edaa3ac538d467eb7e7151bc72e3, 0x32cd95d63175a5c7ef9eb419ada2cc4b6cca90568d637ed6908c68c9b9dd8aa4, 0x28a6655a81ea20422d8467d806dab5e92aa40bce42f7851eedae68e34a09b827, 0x13196d428279a6daa74a1120433585dff8fd143570fdf4749ae0a263ebbe18ee, 0x4b85a2429055cd8c70e450cfa91be99d394d1b1fde5cb6efb888b92dc1e5f1c5, 0x2849cb156403224698a9e2be38a689c967b93e928be29a368d83a6cf5742d317, 0xf9b36f4cc1e34021f5ca6f2b1b383ed9535e19b5b0671a3d6be1461ff169f25, 0x46dc75463a6d167928198a01731731cc714928ad8bf20349d1d8e6e1f7956e67, 0x5a2feb18f2bfe6bfbc6157b418c35ace15761decc6ba94b98fc03c9ec884fa7d, 0x6928d14d9b15924710a434ab0c6078d8f271931af99eb0e4365c1bc96fb96173, 0x42d89744235413b27ef3a48e822bd27ea61ef63b5e54c71bb7903ed03e11db8a, 0x5070083d02704c5f5dd9a83c8706e27367d528259c55f7e158e5b96ea38ca1, 0x301a417d0c3e9f95ca1d6d33abb56cbfecb8dc398cad1c4449d5d9832c9bfb42, 0x18c17f2cede4fe5674a2555bfa087ad5c16f1b35217d110d84d1742e84c39f78, 0x62b334624ce300022af780559bee96c05429614fa02f03150e43f26641772cfe, 0x333aed3d71614e2c9225f0d6812b30bb06fa89d989c3dc604af15a5b2291284b, 0x622780e4f60ac16aa0e75a21ca0c6b9604280df006458b812009fcba718daa6e, 0x4c8792e9ef526a9a03e7ca6813e62693e71e945593971ee6190dda2f715f7ab3, 0x446bfdd00782c01a79b8d905d264d653d288c3c9e3249a504a60d1cc8790748a, 0x16160cc78045af993eadb2d9a6e00a391246edf12c421e1d20483f7a679240a8, 0x63f5c2f136e0e82e71d6bb2820adc3619a55ede971858a257605a93e1afb78b3, 0x6f26fdaa858a1873ebce35cfe41c8eacedbf6165b15bc476f59ac2e37ba8230c, 0x511876e3182bc489f7072110952ed414226262ea086a907a291cb7a4a8289e20, 0x7181ed6889212eb0644325436890c3948aabcfbbf2cd0301df0b2800e0ffe98b, 0x2789794f8d20dad3ab5190122d3e78b874582c14bb806b57766994386360e1bb, 0x57312a281f271bda2cfd130f57886284f7af578d725e6866aedf5b2b2b094ba6, 0x3a9b589870935e6e82ff2c5b7fc5712f565e2bf43306e25a2fb1e4d6bafe7eaf, 0xaf8d1375a433f9b7547cd45b79a898c0488e4f83757198844f9c2416c378e1e, 0x2aa14c986e4df3d6fff754cce6b271edfee4651402b2df136468689a1c23cf32, 0x5eb33f3ff4481490bd3ab2558f70f37dc4af2e03052ead363f8661c3317bc78b, 0x10822823b673d61291cb15a8ca1f4fa847fce52ec729c4189c2ec4603828da68, 0x43e7db9a2a65e8a03138174a46228463a7fe7352ab5bd28e0c2ef411b85656b3, 0x6f96a935935e11b32bd81fc3c0af5c959a9a599de55ea6043629d16219399d68, 0x475e727c31023799d0a80010507c55bcfa59c3ebd7357e509e2bae80a444b36, 0x64571d5b6bfce41d584448a789159de457b2cad7a4548bd9a1850a425f6afa89, 0x1a0c3ad076f675ecefb86ab7a69a55f945461cd7b2fc56e35cd83131f1b10174, 0x43862e582cbf3224c74d6a5420f86e748a68716217ae0ec256c8947e850baa39, 0x3f0d70567e9c8d7e59639eb66e1e4240fdfe2a5dc489bcdec88a035480b71699, 0x57874e662d67b40cff3834edb067a9f25e5a6e24c30bd5723f1f2e860aab6d79, 0x2837bc107bc16611440c9da4e9e2281864b1425b2fc20f9db4e55a73589584f4, 0x6253ec46f04da794d4d3c492a6375c1987167dd7b59add5864b2c9d22e266ae7, 0x35931685c969d7f95061b9c3f8bcd0337ad7daf33c1d8ca07f59a5f5c67d9b5a, 0x1b9bf0133a1180c7084143a781373f61a64578e738d951155abe64e442c3be92, 0x41f7439f564470657204eff5bc74041a0d1a89348509594fe82e51ad8fd9cb09, 0x53194a172d00ae2f0543b7ce15ba3688c62a58345539cc37d4a16c95210d8b36, 0x46d1c5308f80c9f124f37839943e186e25e4d99029ae390190d350c13069bfce, 0xf779dc3f3bb1788695d3dda70a6ea832ae85dd348a71940204efb90e2f26650, 0xd9e9e0fc2522f29bad3c3035f16993ff3882159519a7f94ad3b32011e3910fa, 0xc75f7798ab55137438939dead0679a432a8aff56a85e956a68cf5befebaca0a, 0x4a59964df58a289e92bc0ee8314647a4dd47c3147000bea0729fcdd04f58a237, 0x15b6c63bff950c04433d9eea3d660c12e4af25705e0d60a4bc92be25d704f9aa, 0x67cd89c5960a8cc65231b94c1870dc86c3db5125c784d6f09182fcc3afd86202, 0x31f056a137aafe7a5e3c764cacb49a6368e1329874f387f34702ed4aaa9732d6, 0x6531a31399f99d76bd4528f1447585b32efc2027cea8c208a9ebf35b87e9176f, 0x3e4eb664185d870686348cbb66da873ab47192f421ddb6783b3846b2e76ac05b, 0x971ac515b3acdf93786781f2a029a81946d9e99a68ccf5d37d9744f9159b236, 0x32b1aa255a10691caf0de20cb9993db1837afa64ca720c8122ecc8ef2b424d0, 0x59cca529dba55d42d1c0c1a613bfb4cb1cd0e86c5ed8fbec93064e0a7bf2ad8e, 0x583f1b7f8916f739e326205b58c7eca2eae6d007a8d3a3c7921dd15c5c3b64ae, 0x5ad340cc2ca20f5810273ff920424b982f9117c56f6ce087ff8517f44c00053d, 0x34effd88d862ada36a4e106e6b15528a5ade8f59abf3d98d5a0325562ff0a24a, 0x73e2d955f58218ccf2702abd6f4a746b1ffaaa3d6d6bbc62a0a1f696776757ef, 0x14887050b6155261279e7d42439028f75988ef58125805ccf9bb53809a000995, 0x1de3af13e4e7462cbec63355bbdcc96a9e7a7dd25617cbe1747716aa0535a3c0, 0x69cc1eaecb98295b95f95f8c7146506e58f70b2b52fa42fe65bde915d606e8e9, 0x17141c4420ecd289faa275d413b965625c5fed27d79d0df1112826b4e39da51a, 0x4641a277ad9572a09cca15b1f1ea6fa20782230b9b9faa33a62ba4dd925274ca, 0x61314eba03788097c75f17c8d1e5637e0df608a13f7bb67f40735b4f7c14ab7b, 0x16b113e392d2c9b819ea99704046d6df6329ec21400cb08ca79de676a0d4e22a, 0x6af2293ca92e713fcefe4f3625d2cf6405e23d9a4eb221ad306c0b8ebdfc5b62, 0x58c9926a2279b78fc94c943a29f818dfbb02de6a2a53ef99f67c0b877244c9d1, 0x4c0b3040958815075721d58ed912e641dd42a813449554c36ccb984c631f8c68, 0xfe0be18f0939c365de4e76ad47a2d959f3416f877abff993d566d39fc6192db, 0x70dee6fa3e79c1c76e8bca6aa77243391622a83b4236509cff75c91f9593a0a8, 0x72c52f578d6ddc43780c9fbe283c02f62fc9c436014d38b031a8b8fc9129e928, 0xbc6f688e22ec2bb009604933ed360a31fd56be2b192c873559d845c0468f6cb, 0x3ada36023228e71ec7b4eee72170eec39b520e27ce52fc8631144375de141944, 0xd0f149a9f55397fb8c6a02284de887e264f2e3f734fa4da0bd49d53cada5d00, 0x6c6f3286abc5f8e0cbe280323bca8b24857a1dd5bf3d0a61bb45e575f8a65b97, 0x13eb7e72a6bfa8c70a8f30511bdb241ba6add836823828628564e4963c7e7224, 0x427984eeb426ce31d51a52d4fe39f4f0f01685709380fe5589b7c3153647f75a, 0x54a4bd9ee8356d5df7e1ca1583301b702ae08a8202fff86bfb87d4d8a9812494, 0x4525e9c5d7463d4d69a304dcf8c3ee3ae3cfe47a2a9d19d4967c5169249d3be2, 0xa5242093ec9446115b36d4a4cb83bdea6073cf8bedf15eb7591a7b3213a6757, 0x421e487f07f78eedf1008e04384cf3e9a702985ebe1b1bac93fe8a05951ea528, 0x31a5827dc8bf46871c360b591b9cb23962e726357c3140a4e8a04718e5b2f5f8, 0x4a4d3d2aeceded67ca963bd66cd3e886b4ecee40df882671004ff1679c31d5d2, 0x4f6d827a722dc597878a22c7d523a94ebab77701b43d14d13f6f71567804ad57, 0x73cac5adc73994e3fe81190a8f445ac5b057c9e0d330e81e1f6684c5ebd728ca, 0x45214af495f92ee2df8afeafc79d85fff4901696bae35b5a54121b7c072e38c9, 0x4e8da5021ba6e48a5f0a730ef0cadd3e4e869b611f4cffdf219387a56801a585, 0x60a6c19e3c66b421ac5c846314409ce7e450840f7afe628b7961286dc8b59ee1, 0x5a28a55d2f358381b9e28bc7a91d6666488c9fb3e02eae1d108b12cbcb015871, 0x56f58b473bfda9df9bb9965e72b07623a2e6e3e9680dbd1cec7adcb7ac40c3ce, 0x72ea53044debe699c2effa4d8ad220b6413ae2ea027b029537114312cca05d6f, 0x52c0f2c63be4c1e87a5e8be9ce1b268c0b92d68a48422338e41638520fcb3b72, 0x100511c16fc2ee3593e283c6666c741c6255fb5641ca75e1f889b2df14117921, 0x197b8b5421a43c6da41191737c9f472a8f4d178997c3182995ad3498f9e18192, 0xee9a0b167d39cad6f960e0d4fabea65901f358d67d895c7716f1d31ebb30860, 0x2f73f57c4d0e934596c54b288c70935174c15df832648e5a1004a91f3b321a48, 0x331cbaec6f8e0ce69e5ed97eb4690dd5e91846c4690db80d1b8153a0f2b1bae0, 0x706a96b29170678745b8f6aba91eecb5763d6d7e5496325f3f5b32b8bc30ca91, 0x32e9fc5743143d0088178108c2691f7121b6e9a9e1388edb807512cc4ff638e6, 0x1714c5f152e689c748694b004d52646bf5d3705c587f679cf8bf968f5da1de58, 0x1d9ad6a853340547c662a0d33e780846fd124c28b1550549428b1db611be57ff, 0x6d64d61c3a8f1caa02e48d0c0411a9d447ae5aef00df50e81f647be225a27ad0, 0x10119c3cde9635336b28286fb38478a920c44c2d55fa74071cfdcb7c591b71e3, 0x142e8249cb105ba9492fea54445e13ecbfbe13741c07a9905c34790a92062cb3, 0x26bc091e6fb9c36131f3bc4e56773bd3e468a19bcbe584bf504aaad2818ad4fd, 0x51dabac0b0eb21dd9ed875b1d3c2769c0c9d67238063b5c6842cf278c8dcc54f, 0x463f7f3b48236700ef5c14eadf83a2c0046cc79d31b24e3359cace122210cd1b, 0x483da60d58e2335ae95ea4ba1f48b8ab6760594a2d767d7386c260215ed35cf0, 0x5c1eb643427bb0b67704175dcf4c4fbfe016d3fca8cb95ea2a7f743143e2680a, 0x574757ddc3fab182c6e305266d68a31e3b5f7258ef70ee498f5250f51581cc82, 0x485ec0033701297c1b1a7741e571c28f3b37e8ed416fec71110f87865a8492bf, 0x71e6b26924b803774f3009606f372ca09e7e524ee09d4ed602eca28821ebfdf9, 0x316f92463f0c0db8881eed1986b3c0721ff1c18cdc8fa6b4cfd4663443e4634d, 0x6190f82523d6510d4ae72c79568ceac509fc3cff0bf56f8decafecab01e41598, 0x4221620051d5f635812519d34953a60bf29c621e5aa5c2c81cbe0deb38ec599d, 0xa02c24b506ad38f2b3a7beb4f0bf3e9e0dc3d600c32c5e54cc7be57fa596ecd, 0x266c9cebf8fadcd5570d5028d93a0590501d86e24ea27d18a74489f5f9ab811b, 0x44c1f6a53528aeb230bf43ed564801f9ebfa4c5f4dc9434b1a337ebead7d84b3, 0x3f671cff04e1da9e00b85ebf4d9c6ae84d9adbe4e84a13e1d4f75b7cf89ef24, 0x37ddaf0465a0867614774a56165ebdb06cfe762a23955e39026d6dd58a658619, 0x3132910743fe1a6aa5127dee43651ef301fbf0ebde3b88f8f0b6362e5fd9e00c, 0x22f1188a43f64b241e82f6519df837734128b29b8caf9f68b90e7f2fa3443dfe, 0x3e9b44dbba27ed59d50d671faa7eb569d343c1eac501b822beb3492fab5160bd, 0x2a603629baec35d0c82cd337fbf461cb99234caf57fc2b04721f04038e07e950, 0x35f583d535ecbd0df3a8e1f024a5f39db9243b22cce96f798c1678d9e55c5717, 0x5d16ff487fb8cf9c8399d832b9c73e418650de70784e29117e5e7f5ca13f10e3, 0x30da00830117e6c577f788841a7d0cf90da6ad8b91a568e074eb1ffaf8958eed, 0x67d215febad41600091527d9f54edb6cb89232d3ee27574291826b9a980be1ca, 0x193a03abf6912f35fb6f19aa06d8c42c638fb1744547f3cf465c21fb55dada56, 0x3bc43e85bfecd99724507e12d56bf45050d1ab74c1aaa278e58a57c1a9beea0f, 0xb72dc26ef7d90f55980b17f79c71cd38901e9e9ee3594b42e56750637e2edb2, 0x6b6ec75505de3f5d1be6c4dbf36798b8d79a626ece616df55bd4b15ba165326a, 0x1ef5f68bb960bdc296aee2e4581f3bb691299539c4dc23f44a2cf61616154519, 0x32d1390962ed2a36bc209c66b25549afc18890ea3f2cf8b21d6b41067c218ca2, 0x39c0976b03581a5a618838214d7a6a34901ae5cfab3161206b9822f39b79e3c4, 0x9a413c452a49ade20a997307cb6350612d9ec9bdd8543f9dd74493e700ad767, 0x34d32892b5fed7f9950b6a62ccfb9e82a25894b4cc2d0f60810ff6b808f63fd6, 0x44dd3d9408573ba3f1c40588efd922bf89d13b04b725b53e8cb658630f538206, 0x6de3c60bbfd66937c1fd2d7d0ffc1b58455d4c511f70003ee4d6a160cd9ce102, 0x32666344901627978cbc2059cb386526b5eacc450db20d2c90fa59165be212af, 0x2e9bfb529c128f4e2ed814a0bcf2cd2bd9bec5adc7d156e780fedaafeb98fa29, 0x478e4a02e5e81d17815736ff46ad7e5ed4837cc28c8eae713e50ddba7bd586cc, 0x6b0ca23490ccaba970fdb7f14861a081580ab632fcab6bafc88e8bb5d5398d52, 0x694f34e05e8db66e5ae284deae4e4d2363be059a0875746fc59a5bde54476137, 0x303c27de48371c44319a223343554c7b32e2d9513d66af4421d4b9cbf2fdca78, 0x2a7dd8cf57216fbc8f2c0fc148e3a593135ffb5ced7729e0c5f5edd54a9990b9, 0x4740359b46f26e42226208055b17f6938c47a4f0b68ba0cc965b556b3dc80db9, 0x58c9cbad768d86322fd9fd5438ce0f2f01a813e399f168123f2a752b7b94c9c4, 0x59aaab06381e0806e9cfb05be6c9145c070022f599400cf14af80400138b68f0, 0x3fd1de1030e9b2f4543c783fdc4f4b8b34d9dc021693173d6882927e9330873d, 0x2abbc8ddc4a8a5229596991459e86e4a79cee8a46831d195a8364015760d54fd, 0x106a26d086828945e3d469ef5cbdf72f578473622d743547bfba4b96ef649481, 0x639d120d2d5d4951fe48ab181bcda148f39ad6228651e68c0a87941c5943d62, 0x66329872825d31951dd99e025d71f7411871b7816f17e67775de986469e9d5d4, 0x499802bf5d43c7eef738e0da7fcf5477d9d8a44a0ea79d69df6c377596c4a270, 0x6d08723d9a49393380e14b43638c221303b8944564504d1376b8b80f8e5f4861, 0x6c2d6008316ecbf435893090616f8e5a89ffb684f3bf3c522971b11824f73b4c, 0x17c4f0dbdd13865bbe1ca173879779e0bee5ed27466f7adcb8936967df7f55f4, 0x2adb502cdef5cb0402476960112b48b51809fe5ea26b3fb15a3ce83d2814001c, 0x5f7608a89f43b312c66d914d74e5d2a292416c9be127f1708972303be597bca0, 0x5b5250a6db394350b676d5f03d8e4a79bd7fdee97c55d1587a079262c7d89f68, 0x2774fc809b079a65a79bf049c240945fb1eecd5099cb97a399d591da4bac096c, 0x43e4447a04d292088d7f2ba00b3e74418e4efdb500a00380f71737e54b06ed39, 0x8a73bc80ecb62efe6617bc37d8ed4231e98df9cc3b8faa3940c00e3c26f7a4e, 0x6a18228792a13214f1ff8ce56b7b2df93a72d61e174fb736eb7388614e41d148, 0x9808ca53e7f690d5c876afa5e1e73136b20a2c1ac01ebe95972e285d0aa835c, 0x448974cf0f12f87c66a9af62ac699f536665027bbfbc5eaf8fffb1590ab52c61, 0x66d80f7b8518f209c004390c33a1731cfaea91654a5ca96f5822703b5f56e8d8, 0x413c6c38736802ecde7259694fec0c08fa5a5c8bfc193da7a365ad7b1f2b130b, 0x248b49551bbfbf6d8b8fca368202e7c7f0510b78a0b4b0befcf18d583fe560a7, 0x27a56d3df6bf0d643ae2ed38ede20fa42a23c30753cd998feb0fdf572827d965, 0x504a0f577767f9db8549be9011ad9dd6a7b231290b10ea88eff22147c5209b01, 0x1af0de327c1332d66873767a8f6fb93da9e9d8ef7f7289e004a6773fe04742a1, 0x155c24746678eaec4854497b157e20e8113b84ea991e414221576bec3a9f9897, 0x1b0894f0964fc2c50b8478fda17359e57b9b549018a7ae8f35c4c45b99ede9f4, 0x20b01b9f061f9930d0987ca078aacfee7830220072e3ea6e40ccb7be1c26f4da, 0x66fc8f7b9908c02d93931e22852fd78894970d69960fd552e3b7865802735514, 0x3e893bd91782876172b148ba17da006b0122663ac15b7f441e1b464aaeb8b437, 0x2ebad1526ca8e22012e04d63f972c7410d585d7f08f3eb51360896f252e1e72, 0x57bd95cad765a91ce0afb2e60bbfcca5bef1b71f4e5d0a0a734f61246a81c6cd, 0xffdbc9815b6d49449fbd02c8ec162ae0a1751ecad2440edcebe37f56d88f677, 0x108e4cadf53c33a6b94760cd4ee69cc627639d8f787135c282632be61ba0ddfa, 0xf931a5ea0e6a7fa0fbb50dcc3e8a34e48b287d82015397151302c1beb58ae0d, 0x5d629b0f6a796489dcb00caa3beb04b94c9ebbc0f84ea96d0f799fdea8d3cc18, 0x50a1c6c2cbb92eb323ca34f18a51d2d67b8a40ee2c668bc31a412e94aff346a1, 0x4c5f24f84770be95e6b46ec8e74bc59d5023aa3f418b0bcd95215e8802e6ec3b, 0x324ab7ee8976033a14443f2e498b0f72f4a7fae09fdbf5c6f1d9698a4a17a260, 0x11079e5076ac5c4fcaaf941eaaf7b1a59a6ef4c0f71dcd5908eddbc3fdc4d36, 0x2ae53b65b799c2261ca86e012f9da5dfc1f243f984f78587a5e251bc77e4c9d6, 0x5c53ef0dc289a7aaa40c732db1ee146306a5cbf649fba9fa699e37d004d9787e, 0x704ae9a3180cabe81ba594f372a49f8bedf67c35ec6b18807131f3764ad56e55, 0x4b3302db91a6ed5014bb16432d1e9f8aebc06f9ce74c055c1866fe381952174],
    M = [0x62a0e3d8bdc65befd359f9e3545f56857244bbee8eaa279c8bd03670c6d0f56d, 0x53d9f9ce402d2a5d07fa00015a786303239be25885292135697e18df4a33c83e, 0x47108199f62d17f1bef44a1b5c078940e31be6f293287ba3381dc9234c0e517b, 0x61fad9753943404e38ffb37c9447253bf0bb5eebb3870a39cdcbf51effbaf05a, 0x54c341b0c214667aabe736b99ac6d244132b190f334ebd63fde8dd5e2fc83782, 0x516f9ac0e845b857fcc79157b92fb29242adae5c93e4a0cd23fd02210cf7956b, 0x54d1cb8c2e4277c7de3564f21056e059e1010c7bdc7df520e69969192b2d7c4, 0x60d07816102cd8f0cce33a4174dfb3576f86fc88d4c2a3d53024ccf72d6cfc64, 0x43fc8e098da6b6a190af658751d249a66a591126a538eb533bab0b4bbfdeb50, 0x4339398bdc6f395842570949b19b280e4fe6e7673f7ad2cdba926169f02c3c35, 0x429b2c2017895b49db178db0832a371960bbd1f8266442b0adb2cddce38457a2, 0x478a9bdbd3f0ebb38941086c112b6dcdf2072d0539843a0a7816fad0dfb08e39, 0x5016b29306a867cbdc4534e7f86ad842ac9e5d398c3843cebed857cbb13d9ba0, 0x1650c4555b868b849654f495dd05c0c561e14de4b1d150ad88e28b2b09deace0, 0x20ce7350cfcf1ec862f95328ebcb65fbb6735eb5d275d4a97ff581d2af22e68d, 0x87a883b8491d34c4fafd1e4565718e2e167613c5f3191b688e8774a980f9f72, 0x6320df82279127adc9579eb0c967aae316bb8486ed4df4fc4b1d7ea18e11fff0, 0x56b4780e7ced7fdabb8606876e0cb882512a8ea8d2bfc32117612feb3aebcfb7, 0x5887f560cd4a6f2aaa82657a87cc9b5fc599692421aa7a1eed7ce1f3163ec866, 0x171936391ed5c4b5091a5d4ea9896912fda0c430d09c9ee7c6fe5b9da599a919, 0x6e53a07ddadf7bbee2e860e844208bb15ee8cdb2819091290e3efd6b4008c89b, 0x63abca2cec996fe7cc984b72b364b705a34487b741fc7faae06faf1e8d3e43f0, 0x1d016be5e00e939e98ef6327fcae1eb426c0a95a87569b798393f708c044f64f, 0x233e01e648d9d59c49fd6f5efdc6907d552ab52a7b6a9b640d0d15ad433e328f, 0x5b17e51c0f8e40713bfd0d232199ea016cd778fd8735fe0427699d8186af760f, 0x5cda4b162db8eef3fe18a2f0da0de164f65f157f9da4059ee7e09f20848903ea, 0x6791faff962eb28dd6dd4d460eed72ea7944ffb29a5ac8ed3f110fcdf84eefa8, 0x71132fd58337d731211f231e261e3edafe166847a80b25bcd781e4cff01e4988, 0x3c7150c6265de6e82ccf19cde12d5e15e56203f939726927ed3143c0dcd358a9, 0x286c3874e74e5b9b67650f8033c1ef3b8ae88bdba137cfaf73baf678d4092fa9, 0x5dd3ce1a60c950489dc38a5f54074ea3c5c4144ac3f4adbc4713b7b2db2689e3, 0x325b47b5aea99cdfe7dd501f74d4c7c01993a08fdcb47b7e3010339ff94bdcb8, 0x19eeafc2790a90e5bf47b92730a6abe059a3ac5e634b4db9395fd70bbdd078e0, 0x5ef4d50cbc788f47933bea279796b53adc7c22e8d321e4bf71cf7e4b17d9e079, 0x53a34540a8fc185185b3f0c40039066028193a4fddd2b09e9882e806c391fec1, 0x6b6deeec9d45affc34c0055593c3de4d49dab271155456468fde2dcd77cb0bb2, 0x612666ec324fc2ff87b9009594fe81ac8f4e4482e9dfebfc8518bf6277fd58b5, 0x6c002890a6d2ce3a3003c2f5f1b20ab3a97aa1b70b97ca32a0a4a086ff3f6d2b, 0x154f59a53f2dc2da18608f6a426d8bdec16e4933115e8daf1078a2fefa377a5, 0x701f560789811388348f597b353a2f15a925276d0379e8b88f6cba10667ed7de, 0x2609e1f8edc47c7b7d54a54114b9fe81b2a1e8122d1aec48dd1db03dd8262d6d, 0x5df35a0cd47f2ddef0f13c2fabbb319bc5030037d1ab57caa0ff633c2e580af2, 0x61fdc3c330d472ca527a86d5ab9d3cdedde5ba68a23f5f60d39b692fbe183510, 0x5769aa52f1d551d66cf9e1b37d875f44c9ce3d57473100c3a63089435ce3954f, 0x6e3a6dea66a0089dd25adbe3ff6d3d6fb1fb72cacb8ef94bfa87606ff0e8fb4e, 0x131a2eed5cb24c1e87985491a1ed9fdb3746256f0b3b026356897a03710e8386, 0x1b4fd882b25b50df16b6e76377f5ff8fb279be4181bddd80784bf5913667a955, 0x468069e6e587091b091e0192b470480e7125bae6ef0889fe1c915f40bea360f4, 0x6d476bf35ed45cf945e6c5b7685513e10e689fa648b9f65db59f64cef53427a8, 0x14088b6460b23dcc5e6309d8016cb1235ad525cbb774404f30ce186a9ea804b3, 0x40efb9e189c5953d76cea917f954b6e1d9985716fbfa341f531d10172149c577, 0x322152d299f3f2b2f75032ae09ec688340d8d06182e76b17b8dffe29ad358dd7, 0x4d9e93b1176a763d026d7e7d3547debb12c7253875e1c62470b0270bb6f2ed6f, 0x572ea70794e1549046f47c6f1ef777634d31e613a51b202bfda44bfc7efad61a, 0x49df91411e81f806e3d2e84042d42830e8c4cc25f058d0200dfc6d7c03eaf54f, 0x172989b3589f2992936449b00cf64a24b33218ad70fca1b3109f392300358dd5, 0x3b02dafd75f669e2e39d066ba4cacbe369cb96ee1590c2ed29a50c4719c0439d, 0x6d0bd2f56635dd10263942f410f0cd6ab4d0d7fb5a0eee12c4e7a29d91d9538c, 0x1f34c83f4a1653b9bc3d808c1d2fdbdbfd1e7a06ae7eb588676230e50a281d96, 0x5796f445c1cba77d4abbdbd4734662b8ed8e3f5e9b66d608b2c8a4b4eed91bcf, 0x248b7fc3a03e53e71d9e62e28d4c0863d2640a45b4ee6dd612b72d2719040602, 0x8c341152f999a69c7e6deff1d4dfa54d7b976794bcea79aa91b588081800981, 0x5630e1480ead2d32025cf350fd02d24cf21372335d71a795270d7197d9618b2b, 0x1ffa03612586a2c2463bb31f108094fc30db1bb3697eace0ebe322c7fc27e097, 0xf1efcf16e9bce92230e823f73e18b8264f07a2df0279b7a0c146351bc0fc6ab, 0x15d6580ef7aecab9f49ccfe30cef42c4a7a38f9d24e76bd118a36c4ae7dbc04a, 0x5ca62406b0c6351970a2a5f89547c88a3084fb6935209727e0610afcbd12948c, 0x5b52cc1ca3ca6ab417c6276cb38dd979c276e8b4fd43795d85d04063cdbd82f4, 0x6494502014f7644eb78dacebfe3ec4b15717caeca936f6e26469a9440d80ffad, 0x411f26baa9c0d3688f6917470a90873f2a1c620a361f3cea840dec8723eec4a, 0x2e1f66e557613fe81970eef075cfbfe51d5bf693bae8dbbe5a0e6ad8c63ff155, 0x698a203da8326cfbf8d14d3f64f77cb3447d51286af7f08699c5268b80e043e3, 0x208614b3041e1954e8f8dc132afd31604aac25fab75528947336aa1808dbc830, 0x62bc42009c55ce6cc6852115dc775e2851c3a57cd0b93333e92d1a5980ea9f2f, 0x5651368ceb25d097d14e1e7966acbe1487820984fbdafe7dc9e3b68cf4d4326e, 0x55d8ffff33d088f54f137fa63c013ed92695946401a1dc35c00838e20bccd4b7, 0x67b93c2b057aaeb2ff507037c87d8a281d61816f233b91ff634472655cf97d76, 0xc0af7d725de75601896bc9a9cadf13a3c6bedc285e8b0f9c31c91d87c7e6b1a, 0x483902bf1b009058f62b2dff0caff1b0248fa984d9537ce8b4c0720155c2af4e, 0x7259ad119db0bd23a35402732e3ac8d517bec3aed938c2a91629e909aa23ea10, 0x36c099ec1f91589914359f9d3ddfaa280b2694b4ea3933a57c6de873a40d4d5d, 0x243db9cb8146c4bb71b8858b83fe124b54d7aa17799a10119cfdcf3ac30185cb, 0x2801ff26a93df2b0f03802b4724c079d1094f333f2d685296dae866493f04afc, 0x4dfbbb848ce8d1e26d333450da72735e514f4867b5ddfb6d532e22d765219693, 0x6dde0f6a09be170b9cd2dfe1773f8895609727b31a43400e28de1b5bed2d4fbe, 0x6a6af6b8593d91e38bbc8a469526614e205f9b01f916fde97073522392db1c0b, 0x36b101713c5e3ce949ea286f6d322384e0b2986064a88bf2c1f99efb04a88df, 0x1aff5cbe82c74939480121fb701f3a7adb3b3c6d2ab1d434ecd34011134fd58a, 0x5c5bfeab081081aac630515d3c656198a661f2928df0c4000d628e7a7a6046aa, 0x5cdfa38236e0bfc2149855ecc9abb811f04d2b2c895403ea01a8cd2d4ae5bf5, 0x1074597d046505a2f7fe93d9bdd8351bbb683e15a43fdbac09fd92f390aa4b6, 0x4f1d75deb9df743e3c4601464cba8606fd6eff09f89fe75f6c3f8f9ca5132624, 0x21d89fc9c2044d6b05017c0bc9a7c2e6776894ced34295bc29962003899f23c5, 0x6cb8255044654e05ae10c7cafc3b371e80ece1d2518a5940a4b4e28c710caf69, 0x47d76ac8dab597a383a8e2a14ac4db62528988dacdddee35c9d32d9cfa9163cd, 0xb473d6ba405ee2f75f305451bd90f799b970894ad5487e2c730d39c67aeffdf, 0x2e7b2d289c16e8f6bbcb806f811a294a8071fdb4e22285b9370a491922a22352, 0x14eceb426fe19c63fc6f1930bbca2e5b915f16d775fa42359f79a1b251275fa9, 0x4e7212e1bc84fa08e0ac891227f629605846eb13f376a12bada74e8394342753, 0x391c43e9a053b92c07dba051c3baa71eebee07a09d6d25f17e561311fdec3caf, 0x4429b819f23d5c403b21abbe76f288d266ae3712ff93ae0b5b103bbe2aede849, 0x72939a2206d314c7fe9adc6df348b73903df3605a77612ab1c9559124a771b64, 0x4fcae0625e7b9588a6f4ecb02027d0340ee4115c0b661b06144d3fcffce2d2a5, 0x29090b4346e647ebafabe4ad5815a9daab35d7d049faa58ebaefc09d64238b62, 0x3e447293808712af0679249d7cd2fb40cb6cf28d0239c209c7ac0389bad525f, 0x1a1a97346acf0bce8e5f8343a4a6f9bdfc641ff927565853a8264a918017713b, 0x58378d9ad152e5be73028f8a4d4112576d816bae95dd4944086a3a0310c14868, 0x5a7ea5922997d97a5488890e42cbc57bae472f821f673f510fac0b27428ee298, 0x5417690423bfc03d2eaa12bb67a30ad946adc5d64fd8c71c46f7ffcd98025b92, 0x639242645f5634b276d2dd9baf041c816378392a8a4f6f98dc0755096496a8ad, 0x4437fafb6d402da41fc37794a5036e12f6f39a0adbf9248f7bc9a93b40fdfd30, 0x44587d39131bcf126168c35a4fff5f6064814aa240d261cbc8eb873a84813eb6, 0x588d0071505d9da1076834fe2c50a98c254a9ff92b25d41765290abdbfeec6f4, 0x5285310137c9d1cd271e4adf78bfeb1175584b6c7915c9b43e206dfb7afda10c, 0x3158b645f9e00868ef46156b2bdf218e655c0050a9f6dcc2eaefb76bbdbac8f4, 0x13e34ab9543283e68264fab59de7e41414fb9ee3fb1f6be420661c19ccda8ff2, 0x302f462f3e0d56cdbfe0348fbd88fd908c6e1fc7f5d364e2ab00465b23627bb7, 0x2f953212f544807a18db916312d9275954be2ba3919e459f20f9b80957919198, 0x15409434a6b02844adb9fc2b95860de0deb9b3f39f54223bbb9c0384d8d5b9e4, 0x2ab38f6b7c36521d377ea42e1496b9b84e36111d049101a47d4309b3dfce28fc, 0x27f629c1cd633a285bcf6dcb6288ed55fa9c0330f737540d548a1f6549df0e63, 0x5b4b223317d813f34d32cc5dce19afd595df7c5277c77eb3d737549eaec1834a, 0x59529d620d70472092cbabea7fa45ed1186a64c7f135ec0d9038cbe3a88afeb6, 0x146798729d56b0ec899677e743a320468fa5d2b4dde7f01df7328420ce7f8c73, 0x12c3a8752bb90b0d360ea9a375c0cea903663bb6a81de0e6c504cb4d42cba8fa, 0x6aabe29ef00c640ef1bd5e7eb6bc9cc58ff93171116002b56c3dee9738d6ed27, 0xb55329dc3e0c0b53b7954b597067ffcb35b5cfb299bb374da71ae32024d201d, 0x32a466023bc39bb705023cfa13d6e488116a47192f9d9d8cfb3fa30f06b8720, 0x3d43ffc67936ef2081d0410a4356be691cca9adfaae52508c7a79b36119ed36a, 0x34bd0a8bd8eee33a4c082efc2de8eddd05b662a4a0b9ff10d864868ae754c7ec, 0x4dc11f995a3ce448f42269695e3f96b4faaaef9d51a44d97a8fe64da7c745bd9, 0x526e8651adc87e3ec5bb49c73235eb399c04beafdc2b87698fe347ca4e7a210f, 0x202fed57387005bd3df327c67f4c654572df5a85ce40843c6b72203bf986aa11, 0x461972717d683f4fe71ada4c8ccec216fe60b2bc9407d9e98834300debc8eca4, 0x512117a59a31b94cf260c465b20a5dad2e5bb4dc8b596f049586e1bff4829970, 0x73148a36153d34f1f34b9bf0dee41b9c44d117bbc4637ff118048d7b2f0c7388, 0x75ccc1377985a49325230c643e4438ff24854bc96f01a07bd5370cf36767eaa, 0x60b941a400192c78de8e422741747f2e6add56edaeaeed0de8f4d5a7c9d4375e, 0x34da86cab5c9fc68ff57afb8ffe29cf9ddf9a27b983196550d99d5ab9e25660f, 0xd38db87bac430c4462a47086cc4732aab53add3157f6c6a20692fc10f6830b6, 0x2812f498943016333334cf695f2fa87749bc3041073b083851e784640893f7fb, 0x6b042a4382f6c6bc0c530b4ee1262bfce6d80a2a3a36c143458d12f6a2c7b23, 0x2cc0c6ccf8f0de0aaa8a07532664fe833886d3908241db55c925a7c375de5d88, 0x3cca01dde6f4709810ed19dfc5d8ddd110b248532d62eb0f5c93082493e79c6a, 0x60902a8877e826320712438c755e3fe3d3200456e23074ca660c0a2301531061, 0x6e2441b0bed8c1774ad4b3fe9a3c2103a4ead715bd682df5770a73a12000633, 0x5041e58e758cb915aa11606f506cb690a9229d917a22be00733d706a9c2ae177, 0x4b517763b20a148f7e4b56223acbdaf0306f70031fe8b843b5aa0e6012f80372, 0x5ba9510b79532967d08db08ec1b7c7cbf6fefbf095ab97171c92cdebad51186b, 0x5c49de5882bf0747b994b8d4dc64766f69d16a6b712e75991ad25fcd71b957ac, 0x3b9bdfa2bea7d778bbdbf4036596b007b82f8c29a2589ba4e54220c64d750d4e, 0x2a2432f2d8df103767bfef8f94e890609a19bef2e6cbdf16c6517d6b3675bc16, 0x5b1e2f0f8119639e74cfd15c3bb553bfffa6ee378e75dc08e2f83fafc2fd058e, 0x65c8f639732f9fa007169a1316158e2d673c9d32280ef515113799d9b95f2765, 0x323fde938e892abda48a18837d79016335072516b5c4b4b9ac4d82c3ffea102b, 0x1e3518655eb2bc70385d6dfd2f6329f6f93b81f57e0064326fa2b7179c2e8684, 0x59fbbabd2f02e55cc45d85326770d05378051571bcfc7fd1352f9b79aec211a3, 0x6ac5f00b8635cda9a35806e7099f774ab61a920fe3d00e683bc27a25825fbdb2, 0x300ce6476d084190f872a37b42e391e1975e0d21e16c14196667e0186ab4b0c1, 0x474efe68b12a2f869d9502cfcfbcc3b49f6bb4034775576dfabbd90830d5fc29, 0x2c147c72cc35f84ed088bbd0c1909698405b3fe67536f46ab9f4ea717bf9e498, 0x270077ea7d68fb4e61049d289ca56f3da854669c02dac9690ded9368cf1028da, 0x7340559a5d66710afc44be3462e226db7d14016f3cf6ed8f776d68e9ae897bf5, 0x5e14b140a0fb8528815757c183a4eb82c48a7b6a93e4ee8ecf6746bb31c340a7, 0xf40f59bfef5cd3a94122d77c603125269b371be1d8f54affed65fcf864e295b, 0x2739f2a2b5de05f19c0bc8d9a119c5f743f36ed6005dc6fbda1da4f2a8ebd6ef, 0x67d43cc054482f56142095944a752f035a240a85afd815ae7a5e116cfc069a2b, 0x54c2f78a2be0466e303f08e6d0f00d8ffb0e3cb0d1091effafdfcb2412c54de9, 0x31a29a0d922784287e1f3d8954c5c43ffab053a27214a93c0052b0021ac17192, 0x197e158bbf61f8a1c91022ec91384edb90bcc0a74e448a3183c203ec82b13690, 0x31ca608c905e26fc915a48c5bacd01a9ebac76956f283ef223d518cd627629e2, 0x691e201b8add1608ff7ffca0c2e5a6db942907ed86b8d7bcfc215529f421885b, 0x3c6d1e0bcb532364dd78ee6e24d627dca902ed41d1e5e7fd08af42794c38c5cc, 0xdc9e470c42900296e9e962ab13c096938d9cedb0e586ac0caafd3a964e16668, 0x5dc739f92460211c28f29ad2a4c24214bfcbf007df27deecb4e5790e2add598d, 0x4cfe01c8b0aed588e8c75039924ee9fba09d2681df4750a8a57eb0c9313a84ce, 0x528f20444a146ee7cdb61c689927fd0f4732c5bba53c9a4893fb7d2ada088fde, 0x19f18cf68a948bea5f76967952961b9038dcaf7c63d0defa1684e4ea5136a46d, 0x653cefd76752116ac8c39d1c04b3145a510f8e38d3c03743a8b34c525f1893f8, 0x15ad321b2a030db443ed3c7862fbf56563ae8bb8954dc336eebd574740900755, 0x439c85911e5a3158a657b1f612ebc9281bd535b65490555ca7ef24b85dce392d, 0x17a79f4eaf5324b611a61397a920d83f46c17a1a22ba6002c2f086d41a087feb, 0x123146570dac629b3a14317afaf1d8b0851be49aba6d739bd166128e9040c530, 0x7010ddab42ecf11324ed35f07ad8f6743bb44fdf3026bb1fe52aa9e477054a53, 0x427a7a1375752146403f5a42691cbb7e1b4f45774a0ad4d1d648f47c1b7efd8c, 0x3da8a0a1508ed87af15f14cf9c990f518e136fef178f455cf133c5036fc764e7, 0x52fe5e7a49647879a31ac74a7b78e19305903e87cd82513df0c4f0820dfdc167, 0x1a250c8c5ad3a0c7591c97155ef8f6591d4b2f4691d13e385a6e7b2c2ff9f5ab, 0x64549ec690c19a75c09ace795a4cf2280e20b71be401d65a30a9eef73709673a, 0x25e3b04d0937c1c48fbad13b244893325dafb7f41c61edacc283ae1f39c5234c, 0x216dfa5c7fb2e6294850d6f1051cbdaaf9d7338ab2a0cd15a0684954d7cb98d4, 0x6775c11e0f8194a8fdad04477002257186a351328f4ae933d0b7cef0e77a6c00, 0x2b8f32b3ea145cb483db4a4f348f711838d29579e422a074296d9631cbcc52d4, 0x20d3ff687e63bc14b4bb53f8ffb2ab8279f2fe520262d4f178fc41e89dadaf3a, 0x2e9915871f4bd2eef396fa8be77279756cf55bbfb7e314f0f5f764e3796721a0, 0x6c1e71f421d4b1dab0a23b51097b4ccd655fe216279940824ef454bbe46e8b85]).* from "../poseidon"
}
