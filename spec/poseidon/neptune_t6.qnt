// generated by tools/gen_poseidon.py
module neptune_t6 {
  import poseidon(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513, T = 6, RP = 56, IDX = 1,
    C = [0x548521d894792fbc96a7c8847adc45fe120e1e21364e3abe0abb20b4527c088e, 0x31462b38d3e71d7fdcce88faa7b3d6a5cb25059971e7088279deac89a67fb22b, 0x3ea7ad5521a9bb3d3474bffb1d8d57a165155ea049ac85795ed4d34c31d8b53e, 0x48b9824ae7931e5a24207caff65e8ace4ee9e646ce184dc888cc0054bafcf600, 0x2c2c6e7ca3d18ad6ec43a310f5d10f9fd9697fd94cce58c17e37db749b1cc889, 0x3cb410fa947ede4391f97fff0efe0aea3e92a0ba29a015b56ba69145518e434f, 0x55c016c9c90bb165844efca63eb3b2e83dde0c3524795fdb5251364e7aa95b88, 0x342cd4c0dd0623035005fdebc52ead5c493b1823a49f7b88406b778ac231a915, 0x4d4fe9e4837830815863a5d8d3f0902fd793cf58e0c8b2bc661a0338d0b4c99, 0x3695b47a92f0b714999d5137f69aef202515a780f66fb65fa81cca86e67bc667, 0x5d263f4361a40efe58f94b552059fa59beba7cf8250bef4a6c9d9f03a2426e0e, 0x15d401f30a0352f4f3e80ab1e7d53f4af27b919ee7da43ac1ae3077fd4c074c8, 0x2a975d3361a4078431349402bba13cb31cc44edc8d2b8f31d5fc015923caa03a, 0xc94ba9dcbc19f257f76920220946212252dbe8579d426f2573c6f07696c2a7, 0x5d335f0ea4d5c1af9a07d692088897ad3a40407b359d44243049c7cc37909a28, 0x6f545d24b1679d680480c3d0928800948d2c4222f6f59552f313da36107049c, 0x524b7df566d28602c0de21e573046c36504e6c88de88459a7c92485770388a90, 0xbecc8feeceff97ecc0a4d8372036a86eb2836fdaa17addce3c532f3f0f604e3, 0x431699eff95633ba0c16adc7de28a8b0f9ab9f23575dd25b603537d28418409b, 0x9c10cdfbb74626d0b54c7ab4ca6e36f2168e3ac1f50bf12214dff33b86af1ad, 0x977772c47045e035ea21e1ff6824a47161ee8ae507d311938362dd60690123b, 0x112288294f4c92bd787f843ca4e6f81fe3926a4e5e5ffefe3a55a339d4455100, 0x337bcba6545ecf987da74f9b936189d56df9111657f2f2e1f9700edea8f7d904, 0x28e899e211b6470b3023045a5ab49e09634e7a4dcd2416017789ba72ec1a3b3b, 0x608c47001886beb6ffd5d0dee54f2eaab18e1664090a51b5b2db4e9d9d8f6747, 0x2b42a0775ac453941cd71a088e6d4cd851f7ccf87dfd2f868d1bb7493ae771fe, 0x702af9dc3d3c6a2c99a5d66fdb732f1306acc0f5ed465ea167596389f10189d8, 0xe0c341b3623f4290bdac4cdd3b0e9a98f2b99f47d3a7cbec6ef0836f2f96b84, 0x4aae2765021477e0816b0794a79cc085e891b5958f88fe26b06d512eda65eac6, 0x69f5e8fd421f34aef2ac324b314505492161cb39a4a29a663e4d9333843779ef, 0x13fc40012b64228845865a0a2e3888ae927cf7ab1f5584aabe521646a526f858, 0x72b91266a10cfcc6dd3d69a1994502d5c2a39725530da6f5c8a0b0aedcf32e5c, 0x6bc9e7f7419625d3a4dd7cfa540281f7187e424565b28ee659f5f66c98900793, 0x678a08326c6ca1fc8199ec8292fb45feb61187a4edba3e21fc90c592b3cf85ad, 0x6d8ec8ba36f4e33368d20108fc3e5379338bdd77dc15a0015e0a6d2c5b1dabe7, 0xb37f7d3741ea1f085004971b38319f6bc2899c9c916d2dccb06ae8b0ad1e0ec, 0x465b915d2a3ff8fa2e32052d382a24a69f53d70b8bd7add510d759ca1e8b2b74, 0x63dd58775b6e230ac85a29f8338e10e3ad7a5f809149b9342592ab3542bb9688, 0x380f7277cf6c9e3bd6afff6a406626ad668f2adbf4572e9d646c251bdc2ce6ce, 0x55efed9c7818f2ccc3350f521cc14b972ba98033445b334cd0cf07b2c61d7208, 0x25c62f05e8adcecfe829c92265fe345794c0a6b92399d3824b20f8232c382605, 0x4f7b3e70c2ec2d85d408212ac010ad64c41a25db81ab600d02db8806a9a804e8, 0x6cfb12847408c0e3624d28ef7e84cdecc130650b18ebfbedb155e2ba5be0f5bc, 0x7247c1aaf5a96090111d20411118a64a94e558db81458070f580c309a4a6c76e, 0x1703234509a7a0e3294259880138ad00e429763d99cb879968920de669272442, 0x72666dba6ab75bdf8c8f33de3b23db6b60789c576f130561c0528908479294f9, 0x2082ed08d3a26aff84929490f57c337f6f19ae1a68ab7b3503f4353114f5ad75, 0xeb3b84ca49d8de1d7b9db39558375bb21b1a400fd978ddf1644d2eb48f20872, 0x514f5fc2fe795d1e4c9ff0c204ea9f5ba96520d42198a934ff758c3c13f65b9d, 0x2bd80c87da73b888a059029e58ceecfc5dbee3d546fe42d2cb2407cbbdf668d6, 0x5e33d83b80a0dc5b72271e64f7e77d1d2a34899a9b20fa642d0743ff9000d504, 0x30bddc0aa8fb792ca4d9513160438cb5b1c3ce2eb72571c525965636e0a740f4, 0x20ad6eb0d2c54f1d3fa6e0b4fa7aa2a4fa19599bec56896b6c2dc35e32625972, 0x4ebdaa38f26a761dbc9b52573ce9380541bd0339f3f283c97ac7d50e293613bd, 0x11d166f015f986b193530301ed35f0e7fd9b87886d9a9c356385589d03e0f6c7, 0x5bc46c4d489c65537aeb756a42a4e4cf090e35d714231fc8a243ff2a4481e3ff, 0x470151d9394ad31f7e81368870953515616314dfc25082cf7acfd851658be36b, 0x127622f12cda29941d94d6a6d7d52681de625543e88210b102bb252785a503d2, 0x5744a19d6bd6a0ec8e45f0c1c425a83e64d4208923d19e54332242534b23dd34, 0x297833dd8efef49cb6b3d9710b4ca52cd0122dbada5f8d913d83dc8b212ddb71, 0x243c5a6a742ee4915a94306d874123d6a7f1b149a0ea9e0798222142cda25ea7, 0x51999965af0d88ce42532d5185e50952782112a2339de72972f8b9427b336838, 0x500a7ff3bd36aa10ca73f31c4789f80bfef6448ccc36cd259f3c974edffe5f3c, 0x4f6ce88a26d92353f6d3e8451a897dc5cf24c9b5a69330fca7925cf3cec48b07, 0x54bf49faed6af4d017fac20f81c873dd23a48cac049cff551ce26a06eb701d58, 0x5b4ce9563d0a1322c2fa042797ceb41382adb3e6e8849fcaf289ecb2c5e6691a, 0x631b0fe1bbcecbc303a8f8ec0b6a8aa201a1d5e443e1a779a2f10403bbda04c0, 0x1869d14cbde836bf8550e6032fd69adb5a40c0de8342e63e94664bef8f9176f, 0x22603d8858a72bfa15e8747049d960da27f61d73750d406d52892d54a8e075c3, 0x2efe535f7312f16370f16497a471a9fff5ca6aa5549492809ae681b7ffe20709, 0x136883e370406af452c94b144652270b81de0085d8a9853a1c6fb5dafa7227b3, 0x6b600670f98231f03b15671b40a1dd3ddb280431ca3cc4c84719fa47a48f6cc3, 0x4c7911d73e9fba9d67dfeb872da3f1a9e14d77481bb2f0f2deae172c2bb3429d, 0x5c693665c43464b3319dc0abad4acbcb4cd50f9c77ba553e4d2659a3e721a7e9, 0x6c0b3156831f3de50fcb444f6bf99760ba62afd93b81b6e1101084a38a1676f5, 0x2531e802f403bc34d8d17d0007691aec2a1e12f035532a146055d794b9dc0b55, 0x4e17fcd40d97c07bb79551d1e439d8b0a6f7fd5a2f2eb7bbc5d01ef77f7738, 0x20c83ad3502f967b4ba0e00ea591f852c574bffe5a5c4d421fcabd904340b21, 0x4a22fa219479196039dc7915833254b23c8158f5c46ec45cab3e2e9bffdb0fee, 0x3e0d15c1453e154a3a58a15f3c87c90a2b38cb03ddd6add0ea71ec341d3dafe8, 0x3dd3c8d8baefbf047b91ed77304231156abf8b6dea6e853c567545a0c4918b86, 0x50d6852d23e5240da9f040cbaecf3670f8b3bb95a76cbb9bbc567d5e285cad64, 0x1d4dc861854af9121d1bb5489e0e4833cbbf572c9b14fc77976fbfc35edbbfac, 0x8cf3b129e068bde7c6a7d1cda46441e63ab29e418cc1b51459a59b0ff0c361b, 0x47d78b764e35ace3abecbcba01c065b072a63ea4f86dc02a4a61d8932cfacec2, 0x2ad94ada7d58efb5f04a2131cbdfe373a2b476b08e37d742aadbf1e6d752e300, 0x408b1f90ef3a3aaf307e8d6058b057f46d0e1137c48f53c904ecbddb6a044a9f, 0x50396854fc6c9bdc5137e57b99c66a8813a4527ac2117f232cfaad18f96bd2cf, 0x6e3e8f02aa28a0a64cc2c18868da31000c950abc12af064e4d124853d4884bc7, 0x629eda767c224355df3b6319356a60234c552fd0540249494abbbb6a2f4eceeb, 0x11df0dbd1f7da7f526821974f26c7c50d367ef1236d384cfa82b096e247a02ec, 0x1fa0fe1b62ba3e0a95d744e95d5d551dbcfafa886f80ade41e683cf96beeb6ac, 0xe82f543b5ce43a014aa8de712cf6c59a193c172664ca902fb150a8f2d99deff, 0x29c69200ff3a902e794c5a795f250ba73a0d0d19d6a1fec4f63b97345dc9db6c, 0x6f8b277458cd502e63a02319c7f39c7b9c3033440e5f5b20faecf602f6b4c8f5, 0x1364dc10dca02ab307d0a0a06b648099badd681b96f2428e73119192fdd21e7c, 0x55821601e39ca49c015eac30ee665e232732384dfe000832b90556ab0840b009, 0x65b296065a9ec4abb52d83c6a0a335bf0d1825dbca3cb7eaea94626cd58d0b89, 0x6fec9c66c500a3684276af43faf1f653cd0e073d55989e58720988f5aceebb49, 0x3a6e1096ee9f156aa3c076a944a7a4479457f663db6e0cf8f4b1d732d9567969, 0x5f2982c2aa658b1d52167a3d1bac483a40eb80946eb98cfd819c1fa4f5d2cd04, 0x4ff853fdf7328f42a13b403c8285e4b02faf0e1069df96fb3deb6f20f100fac1, 0x57a2e6d4014062817b552117181917bbab9530ab1fa03198f213b9e4fe6b62f8, 0x49c1a0cd8361bd532fb5201d385c23de5339f502af73a823c349e468bde08427, 0x6dbc9117da36f66983a1b38a00294654ee11a3541757f9866cfaa9044b6afa44, 0xc88f976e97e18ba05a98d1902d9b1b3beed003d433c46b3ace9acfa0274284d, 0x2ace3ed9cd0c795b07d20f09d5133a2d988f15eb11ed66c75e81c8b2b1223e77, 0x3a88cfc1cf66eda602a662447134259d8283f702dd272d37a05372ccb326fa61, 0x484742db596ca2c68e446db45ea22d70a802ca0eeb3a4c7e04e46b8e944913c9, 0x3f0fac00875eb28591001a1d72810704de5b881d1f1fff26c5a35b8126148ee7, 0x5f281ea800d34bd23f1d038e34c5c31959a3efcea331c569ee47df3b8a0797aa, 0x32d4a6da2a3990b85a0eeb815e5bb043f86e26fb0496d9b8911a7aae38a2cf61, 0x660e99727c8c8b53ea5a7ccfa2574b6764a92a17be1dde67fb1da88d19c41623, 0x2111e2fc292bf2545e23d4a26cfd05bfe54a6be69a59ec3378416182514494aa, 0x5a232f1c6efd3cd3ae98dcd57f2b2f69aa369036f2289376c88b93486da8798c, 0x25e9998aa6ea70585a73df1713feee915d25941d1ee8a671f473c32fb63c0375, 0xf646610ba13742f611ded68e6a20f17674ddba41a5e08944d253a98b7548f9d, 0x11429b268512820c4a33e0dee977730ec72170cd8f8c4942b5ee67c4c188bb4, 0x2719bfe93cb8e9cd0cf289b377baef7b41ac94faa78eae96978793c97af97b3c, 0x315c109863f53902a3867ecdffffaf85fccb7afd37842c764b6d9f2bfaeff3ef, 0x128cfdbd2ccb671a563df2d9c5060e594338d0417abe32cfbea550d2454fcc1e, 0x6425ece3c6c92d7f47ee8e3182bf75692a80970ba408135c3d8605deb58c1120, 0x65b161023ed1435a410a199aeef36ae756b5eab708f582b49ccbd86c0037494e, 0x47778996cfdd6cbea2b161df493e49402a5c6d2533689d943a831944a6cf37ce, 0x5fca37a1ff1b47f69b3fb6c40b09dfd6efe41e1597d3520fff6fdb894b9419dd, 0xc915b2876378a82c27c3e23e4232a90a0c8219900479c8c02b865e3cf750b18, 0x72811f09bfa2eb968fb804d1b5f907e7011b8a184d696d4b97de7cb75011b510, 0x48674fb4befb161795b6634dcdca2956a4e8c99c762b7db06848fe26f9a4de23, 0x441017afea1d8715a1fbc202a37c9a7ad0217855f2a9b38102a5d8701878bab2, 0x409aaf4e6ca195b4a6039e44467eb80defd3a6b0bd0c55afaf37af7a1c1affdc, 0x5153089f3509da5b85fcdedb2aeb358a31adf1de77d578ae4f9d27b52e77a88e, 0x6cb9978165051be7d60dd1b0b1224a71a2cb3b1092baeb56808f6a6aae23e8f2, 0x2ebf64f1e7aab357b522479224931e58a938f8603436d7195b8a155dcb66018a, 0x46bce486031e75b8b4e42f066c6a7b9dda90493dd45929b7930d5e6a472aa681, 0x1efc3bf6483709b1b2507ddb4887f132a8380a17f542845ae5e91a75c2b2e66a, 0x71f5c5e3437fd70d43ff144bf2e7e9a087f5c31efbac6781d91123d1bcb20697, 0x3a1facca76570678168bee07142a199d50448aae26d9ca8844bff3e90864bddb, 0x44501eccb83dfda17a73e46e8b30ace231b2e47320925b904d21cbe4f1db244f, 0x33a3518decc61fcded154168997e0ab8274cdef959a478a823cf0462bfa1ffb6, 0x39c0c793731126695886a692b800eb987dfd3c5886fec157cd593393a48654f7, 0x66f319981c1e95f5dd010adc8939ec69e1272255b78c0fa8c0fabdabd9973cf1, 0x10fa9fd47cd83a0de9b75d58190d5fc539beebb565470269d331edfb59dc0803, 0x4cde7b8c7268ef45912b421e7c7c5a1acd025caa99adfd317c156dc191fdfede, 0x46485968bf01d2555617ec047272b1b1c440243a86d89c973fc0b27f9fd8d4ad, 0xd15313818bc8ed094ceac6e36898acb3177af2ba4c5b4e8274528198caa14b5, 0x66a734fd81e283154d22bfdae2cb62be26be7ada4fad379ea5e7d79566418a7f, 0x50e3be565103cf722d873a0f8f1b754fa9efb88fb5e8714934303f69181d037b, 0x3f9fa2d0ccd54ab4bf4d01cfb1d36a892e68dc2f118db939dd70a232c1aa51ad, 0x27f0bd4e13689e8af13496c25c7e41fecbf19af519efb0caf497a98d69066d57, 0x721b9f4d2894fe7f1d7c1ee2d829f06e0ec8e7c6741f636d9287a6f80fb92a08, 0xed2f1f7d073634c0da042f451d0cc6d54cbb561f17f19f5b78261149cf02fa8, 0x3749449ff87ffa87e8a74f5c5cd166a19e935dce9e28863ce2985e8597620f54, 0x2be2ae5b493183efa5354b7cae377ba5446f0f8ecee5c7eb95505a764bf2ccc7, 0xa55ba464d6550d3a65f7752b162155d57e5ff911b80e2718874604335990fb8, 0x621091436c6df6372faac9b8c656ffb9a9a6c059aaf22b898ab4063473791883, 0x23b31a0edde40da4edd7f540a54ff89c05a13feb7b3738ca1cee5eab602e4462, 0x1d00b8ed6db4fac9674a4bf2b4248a789d60e032ae431fa932e7ca12397f5074, 0x3bacc0cc911f8c5c3a059fde413e70896bbb964734fc6fd262b523b6a6e76eb9, 0x69081815e04bbe2fa9481e5d0b2a62e466335a58221c39c6d7ab3431e3a103ab, 0x6a552ed83cf081abec38f7b75b6c2c148d272ee22795703926c9e7b93b746345, 0x42c44aa746aea4d191d7b14495181912ebdb15e01637a633e4154cb038468194, 0x36cbf80c8c36016544a9f20c4a8cc0c68cbc5c559f882753975708bcaf1955e8, 0x349161657965edb29ddc5f99d8f6789dc733786d53f6b0e8999b4581ba8d6e6b, 0x53f6e10e11bee79bbfa411a06f6edb1811cf4b44a6f52fde301fab04c3faa44, 0x2c000dc0aa4c208bc71a8954543b259364c265d60cd6f901f1ace868a3442f85, 0x200d5c5b2426e2d86f2dd5c859bfc50765e28e4cd1ac8b1559fd7f2cece9d438, 0x6e3d2c9ecca2ab245e992b1e63313fb00f0bd8979a227ffffc7200e388c046c4, 0x55c31b387dc46b8a38795c48125e23cfed8eb8c5a06c5a8ebc66763c550d6e9, 0x31e6f5280774cdbee72a59156eaffbc0f8e86cacdb86d72fa733eb019c8012aa, 0x1fb9a10ba6fc78c5add00e1b2f0d06ed669d425f718a8617b40871f5ef4b49d3, 0xe62c3e11400d3f57161a66562099cac3761c02191e90fc55854164818fb1e1d, 0x64f313c45e13a056196464b16f08e5a60aeda136a86515484da958503b1aa465, 0x205222b850bd754e2e1dc5fa63ec3a584635840e143550fa3931e691f7f7878d, 0x2ae5ff5e5cce3f083c9ddc62875d4d5aa0579ff25fe60862dd6e34df702d1002, 0x566dff9b3f1d2f2e477d8c70242114ae2a400533bd7475cb26fceb41de1425ec, 0x59b9770892dc7e8295288d9747dcce0d55bfe355db74da7a80a4a63c92759a3, 0x3d6f8ab4016eb1b73d1fc1eb677023e594e871b0e5af1f89685012e6cafe6a6e, 0x14d354c1ea74b0dc9c917843b8051a83fdec33008217411177e51356214fbdad, 0x64711655819cfe69b6603bc3fde07b51cd23248bd9e4a899b57015b4f9ec6683, 0x3c921d822157e0e17fb15ee6a736594913e62f692fc65ac51f746c6a810781f6, 0x2be17c10895e44322f09b714db6f2ae6d0e07914aec8e0a78427ba992e3301be, 0x160bfc2a3b3849855a5d71934fddabffedf0128866249c408540068c0aed6e80, 0x3582a4f7a30d0cfee1ef5cfa76a95a5454b902d7e3c2eafe8151e3956eaac940, 0x3f30ceb821c78ae3a9cb1e8158fa7cc3d5ccda1dfe00ef85d6ff17a87921115e, 0x58f222b42f2b5a99315f4883ac0e2ad8085963d86d33fa76cbbf23a416790614, 0x12556ea9c6fa1239db045f46a0febdbff0c86e904bfdd8314f464858d901dc10, 0x255fb2177f0fae0e94fafd893bb9c7affeed02a2b0a58d70218f5b0537d421b8, 0x26e0d1a92d401b25333d320febc3306bc9f2f5a4da02e0b954ecf71eb5aa238b, 0x21950bf40d69646ed73c06659f4b5884631a9de2a26cc95265a556c226e65020, 0x152f12f8f3f0f8fccc17e93cdf41197eabd1fc5d1bbc105500782790f7a7e3e4, 0x622f870aa44773fe6142b0f569106beb82fc9bcee5a02a3768191cef9dbdbe6d, 0x6f1675ed5838bdbc8c4b03e946a778bab02abeaa1da9f398a528d69c1731368d, 0x69536f32785651c3df96f5c8e64db594d02499b771e9da5388f711f39cc33b51, 0x28e24396a5fb2718a0684018bd8ed8dbe749390f97f224c2b5d21eab24f8809d, 0x378583ecc5827a21b302d3bc742956717578b223ffed1cfad4c89f20521a1cb2, 0x253601e7a09be73e18be55bfd601fafac8ab204e8ab47248a39015d3094e216, 0x50de4e63a15f3a9cb5db3c5b9817375c11d2324c73652cd423deca46e6623b8e, 0x69c33b6dcae7828ba342055d276514727d0cbf562e7246979556aef5a977d5f0, 0x1b0ee8956aefe46b17f4aeda6586768361244c2f6835aa8ad2ac1323986f6cc0, 0x11462fbc529006d420f70a60c60e0aa1b5166ea08f5b8cac3901cd54ea006eef, 0x5fce409a7b086e79fb89e2ec616552a4c457c348070ddea62f1c1d32678633e, 0x25c00df863d4832bc828603234b6946323f6c7372d36197bb29fdb1a1627ea94, 0x12c3b52940878c26c4438725e0b86c9709e11faedaf0b4c9868d8f03b644d5c2, 0x2aed8eaa394a43944e92bfce2972eec42ed5c0451e1f1076468002703186ad87, 0x110e539054f115fbb5c6d625674f8d1f88c2513441080e6c5626775a00a8a32d, 0x4ebb0e837236bb4c0aade23a10da3b729be3be455ce43939fab5cfaf5ee856d4, 0x2ec264785a4409ce76f26949fe9c491346fac4918cab219aa116c58c5e6e2569, 0x6d96b0cb8c6af4187690a7f0f3505e53ac53933c04119a57608d1f1a80606df8, 0x2270010fd77fd990576cecb733a7e67e8bceaf398334a954ecd6a1deee05c5b3, 0x37f30b497baad25553a5ca2e63b0360d31e72e6dfeefc8550b0a5a2716872933, 0x479771df0095f14c2b84458c88d1a1306ffb93cb5704fc64fa4c1d29ffb7e98d, 0x2b5c25020fc14a28d5a44bea2220818b15c5fe0d0dc4ae1213026b210fcec372, 0x3a98b00133ddbba9e4b708f4c5b43e62f5dfdeefbd8edabbb78ee0eaec55a160, 0x2c31f139addc09de39eb363fbc77e105ae90d1cadf0cb12bdeb1eb71dbd1de32, 0x6939545277822caf326cdef0d3a8dbf40871186236a26762926a11f5e1630f39, 0x117ea4c53c881176ff033f533c6298f84171afd209267c1d607f114db3f645a3, 0x46a2b28c093291ff399ae103e66837a7156b85aa3823afa3b75f17055341c940, 0x2483fefb71d2e84cdb0cc4cbc2f3fd409f9216cfdb47d900ddaea5dd1db9179c, 0x22488d66d9157a2b84454eb7562634c731d4185aaf593e2f3970fa2bac9d3b1c, 0xdc0bfc9eb293ff0dd3107f323af94e54203b80031898e1cdeeac143a597ea53, 0x40b889def1c9906ca31ac27db683a599df8e8cbe9c8e51fe7be351f795665ac2, 0x3918f6a1ebaa94b0a36d6069be2ebbbfa9d0e3d3c049173b454a00446cab4e28, 0x3fb677647e521ec61a24d481bbbdfd4d5894b6e082368ab1a8cbad7f03a3f8ec, 0x13f1d8247e751738889946ff7d375d5419ad39819f2761e5e46951433f1eb6ec, 0x53a5d4b53de871b98b4eb02cfc4f660fe169cc9fa440f56c44a9bc2d6900384c, 0x1651acfbecb2ddb2f56a45148791a408242671dfa99aac4c35e7a1bd134b61e, 0x26ff3fc24332c8617d67dc1b8e798f88c1730d080f886bb0d95af8d429091561, 0x1cc7dea4469b2e0049e15ebcc7c80b50a0c0ccfc889f116453eae7f6e4a260d, 0x565aac7582dc58168da53a62bdb0009ba53bc23da7404fc375365406888b35b1, 0x452fd2a214bd7ff2aba0823f724333d3442214395d617d1a822a3a014d63a093, 0x5e866354330037511ccf4c5506fc99210c447a5c52522dc7a64b1163c8291dbe, 0x8bab225ee500209aa396172393796a2dafeb42134a44f80cf5bb3c12248c7e1, 0x17137cc2bd39726db86627a193682a2f6a149db2cd9563b65f9ac79c13b85477, 0x878fc2830f1184b189ef80bc2d21560a92ba64a1064ccce4db7b2bb50f60b1a, 0x655518294a00ba8bece5c11d60263fac3995133cc831ec3f7a812aec317c8d5f, 0x11e6865b417db7a92badd8d17c9f95eb9f77f813ba95d82961daec23f0989176, 0x64124163fc2d1464ec10b10caa1e45e3af5a2b92e98d9ca2001cb9056471e5d8, 0x1130c005d2b2a6d132776c8332ba122bb0e371c768226c0fcb8b1007904d3fc8, 0x264e7b918224b28f04209097ab0611fdeabcf4d427b66b03ff57585c259d0ad5, 0x4bdc49644262e2e8742d13a26cdfbe9bbc6ec2ea104c8bb869499eeba9064f3c, 0x3bb657a5896254c99e170caf05abef822f278e2898b99698b01f3eb9b6519ba2, 0x1ac2b2f200b2628b4db7d3c0e44d2a29d424ce51f2277543ec8eb1f5c630f6e3, 0x5324166cdee150303c9beb40513f78d7eef880e0c75e99070ff3cdf65cb98b10, 0x65b5654880fbc9c2397acc9e12c5e78f189ea072f5b580970bcc0616a051bda4, 0x6a42358c9ac63962199e4549744aecae3f7313eae045abf3264603054b10712, 0x21f10f4bc1e7e75850694d2c5074d0500f5027cf78c94f459ea534a82f4988f3, 0x495deaa6d3a8229f58afd5a2eae5c7c3f3e95270b9eec2945c44202cfd0401e3, 0x4f363a06a41296cce4b17466074aa991e810d912a28c2b1619f419fd5c829999, 0x3692b5286a91da601e61c436a4c75cd612ff81b8ecd038e20b0e163a86b7a741, 0x916d81dbd9d74aa13f5b237fe795b1af90b3e65b51fb15e0ee17f0dcd75a2ae, 0x375fab37140687b40320cc5fcb322fc3f08640cedb9601e1d971d3bcd8937ecc, 0x3c3edecd592b1d73901da3a36bd93754160b6e6b60b06bee53298ff6d39a019b, 0x11beaf525aace4ba21cde767acb053c249656d81f5acdcae26e1a690bd8ed66b, 0x53be99490a485db6f169cde9393595a29e4c4adaf2967f22f32071e37c962f7d, 0x682fd41ef6de70d5bc1002d27a1cf2e17b13b1ffde14daf959c222dfe6d61ede, 0x2bd4906ea93120eab92300ab4facab89a357e127eecfe8cb48db09f9bb915f1e, 0x5d80fbe102120d3c668e73fd86c76c0853f9e17c028ca71ef4b6d3c3aa684044, 0x2aa5f95b58c42e85ca0ea6333ed389e678504522a5c7af89d719ef2b20eb6d21, 0x619c14739eb240b5e5a88082c1f785f07c608bb6927a7b87f1cc3e20b53b56bd, 0x354ec4c20579629a0503cdaddf4b18f878fc93ee71479ac62695227bd0fcef56, 0x2a16a20529637963f38b96bea18dc7c6f12a3cab61cf172d7901eebd3b04e59d, 0x5c7216a4e6a65f5347b3423a9d9c0e21166154ed98d2b45f064f54fcc8ec649b, 0x2e73c159402d8309b7fabda8f2ac1c7d4681a8310e7bbc6c5040c30955e43c20, 0x91310eaf34f22c06e178461fc44fb46610359506ddccb0352aa47b5cb5f6b12, 0x6f51029d4b3165a73c51dcbf6a61de4d53ad9ee8912c0bf995ce9c5665d2a2f2, 0x2b6ebaf90c772cf3c2798f3e6346e424507a011be2e632274f8cc441654c8031, 0x6ef18dbd7d18ef2979c90828486c771ed8cca7453adb091ea6097f5a84473f39, 0x2676cb7e6da36066967ae54824a00ffa1c949111139834b83a55c71c9ad721f4, 0x39c12f24d1512879a1ff5cfbdb996d754e6430714652ed6399c934661a729525, 0x22146e820f02a989159b007c51904771e9dd7e19f80c833b81a08988c30b0c23, 0x2d1e6a7f61ae80da75b606c1660c3829bb949726bd3cdfb2f5c011bd1b4cd51f, 0x1427aa3bfc29854ac2150deb053b8204b34f568b40d492a400dacc43ed774ebd, 0x290a7d33dffbe2006ef803532fd49cf48a2d55278810312653fd36e04f67b320, 0x6a3a494002527f12b76a4bea51152dbb88c71b284f31c74a9fb6d76ab1957c33, 0x667eb967aec82c94fce3266cae5cc0ff36baca6cd776c8b40b01ffcfec455c13, 0x3a477c3837ba9a502a922f6f9ecf338d7cbee5db552aaebea47ef6d8f5a6f813, 0x2a62b5d417e019832fe2cd5e37842cf8c964ea400bad87e8a3442606e029015a, 0x295e50a34ad30e33c4da60a2808df7da9805077d8ac7ffe2e2fae6f452649f40, 0x15be2e131fab368d274a15f364e007db96613cf6044ea24d08e603a595448e00, 0x4c821d5551eb26bd276e934dbbc07cc48ae4e5a37f12b5ef4b77168f5626318a, 0x3bd673dce39bf6cec8e6f78c6457cbd010dad05fd4b9f68c4fdc8e60ef284ec1, 0x68e2795f25e19aaebe4895feeac3b32630bbc9788ff90dbab17f4babfb22db28, 0x4a045b600b43e506af48855a06f654708a5831e3512bbac8f8cf4c8032bc37a0, 0x4700f26cc208f976d350167268a165c2a0c2b6c8eb9636ec662d8b8a4f97dbbd, 0x2ea980674d0b49903a805909574d9819c6ddac929ee75a390bb75163ee87506c, 0x6b3964ae9e7d87e6f957412f6647d5b7da60bd92b1b41ba36f2eb38b0b29e418, 0x4c247f367aeb588499b03553699e9948db7022bdffb8990fb3845e1037b5d5f3, 0x47294137c59cf0ee2ccf05164ed360923cff46cd58c67612d466fa770b65103c, 0x5385c6ebf2904d11c668a81c541e748d203a19b1392c0c042d4dbd4095e40868, 0x520dff4214c21708310609386e029f74a59d7cf84665251e44b8440d205a32e9, 0x2221d01f56839cd3839d739d2f4b8ec4370cdfe6c24943f2728d6321b4e2ce67, 0x1cd19826ab65935323fdeb3bfab143221cac42da720b5f31b9d976889d4bf333, 0x125dc999453d2c202bd6f6306bd8bc6abf378c168f18e537660e57fe193fe9fa, 0x23229b40f8276146b23384058a1ca02d7f2709419278c6784a3ec312fa7412d4, 0x665682a87dbe8fad56358b085730713aa1da3733b6f6c2ca4c9644ad48685775, 0x4d22b1e7d04cbef358bab0901b44dfbe6390e8115075549318708c7c38a46c8a, 0xc6940ec5b458b5ca4d0386adb0c05c336dad05451039cdf7e1fa76c2a7b86bf, 0x300a0be3aaaa3cce0dd437462927c60124b1f7c79771749d44a0b1e6692bfb9e, 0x1ad91ad630cf40663ab3a6dfd75dde7c4ec393a89cc03eefc589af641653835e, 0x1f8b2ec02372e6d00ac18d4cbec2a37b22278c351d1f80e603f262fac3db9bc3, 0x10e65556afe3d649e464482f91b79bb74a2a6416157f14f1bb0cb1b8a79b9f85, 0x5d03782d119aa8c337f0905caa9fa3835c16c237615d8efc5710ffd25f2e3580, 0x21572bd324c9ea70cd3ca094d7121ce8e4caec5a5d8d167d13264d2c3ba9cfc1, 0x679952a8160866b912037935559c04b34c4756de970351216424bc8d8653a8a1, 0x1024a64762a57867f8189e71a2bdf76b6bd267d7e06c36b4d64d83aa392534a1, 0x214f8eba539ebec89dfe696d433e75565ffa557db23a5599f02a91c825ce8e15, 0x4043ef6aa84d42bd3f520c4d13266d785b178f1e00e02c009008cae10b8cc558, 0x5e58955c2bc348510977397a36b1b87834c2a0713b65a09899ee8d4d20bdaece, 0x4093f7ad978b0b081d7115e1a964e7f649c70dca5731bd53603a1cb5cb075e13, 0x19886b294644e0cd70a6d2bf20ec6e2f5409c256f4bb8c7f301da1c66a501447, 0x5da03c31a7f571fa95cd47b16f41f46834ad28b37c96f9b6ff6d0693d80a1f2d, 0x5ed3acb0fdb8b1ae761e23bae79e6fc9e257a62bb4dfeefbc2263648e5b1db50, 0x31c8bc21f2269e0d6dd409c5214be31f0819439bce68c235a153d014bf2b1813, 0x6a7e5878d2715f1b9d658e597aedadd12ee775d7d0b034015455af34734964ff, 0x6a875f2853acc3c849fc3693e041c57fc77d2b819caf3acc1e47dfb226ef42f8, 0x4805045e76e8784bec66e54b53196b4720eac31208cc31cb729a62141244f336, 0x209b0825ecd7b8679cac6e9a7a1321e834dfeb0f5189318337bccc8b12be8e1c, 0xc4423032f8a8d3963002449f693d3f305316a7d7c70469d694dde632bcda80, 0x5ea09423b767d0bf91513070d3e2577fe40bd85d6c58df5a8077970d3700b283, 0x72ad060fec950e75bae53afd8a71b239ecc9f089be708e48b29717eadcf8f0ba, 0x8d06978c5344e4f2abe2eeadcaab3210da77aa1ec8318ed7bb7625b1b089590, 0x402859fc49f60b2282d2f0af3e2c6e3f76dc58c4145dde1527c4a1dff26a9f61, 0x176030f042cfc8e542b2bef82d48451c5c9f279e431f7336447d61d115d2c8d3, 0x57ef78444a1510019fe1c9581c850e0837502a183414084f9fc259a141f2e36e, 0x3b4986e1d0608964e03fc095c5ccf3f7f938f0191ed87285812903570e48c092, 0x564d77e002c51fb5b37502df32bc7d70a4d75901a51004170b166fddef7bcf80, 0x3673aeff1eada5843fcaf632156c0bb2da41297d5b92cd284ef8965c8ef1b27e, 0x24c17ffc5552962bc2a6382aba411654e4a8e47711b3f6e4159e3857a5adeb44, 0x1e386074883b276b991677dcfec46bedc8aaf60336311699ca62a06bb8fbf301, 0x645075c23f00674f4dc44dc6853873244249f9ea919898303bbbd858abd8164f, 0x25717d57f5fd88e57acd3c555c5034605fb20c6b8dd09e89d9d56ddc2f02ce32, 0x303d897948169db5fd4705b0bb0a5da2119b06122e4c12ea9bcb9c63be85a2be, 0x651a2c73be3994fdb2ff7e008f156a51d2f93c784283049b3229a24855cf535c, 0x4a9609b45606900a288c0598242180975446ca3bd34cab13ca701cbd5aa0bc3c, 0x59950f681ed6ec2d3df144c1d6493fa879e5a59b6e61ac148e3fd001d2093b8d, 0x2a0403ae933aaf2ecca1e74813bd7509770a140b641f061be42eff530b61e467, 0x5c41d720e8985149beb4a4844c091a4599a90303efcda1b5163f2089659f1af3, 0x5bfa0963fc16212a739171088ce01815712d0932efc5de737a5d3520046fa673, 0x1005dac7caf31f57b8bbbc85e228a232f280fdd512154dede687d593253a0f3a, 0x50c6e21e976f4a4d2dee4d29054379577a0c615778a48e3e4be5cf1916f930a1, 0x2ddaed075b19c679c44b3bd88fe51d135316750cbae8ade5907060972aa94599, 0x511cbb88ed498506c8aafe8e899cdf45c9ae7e31eebd026eb0205e348e955c81, 0x61b6ae4c776821ad283404fc6b937ea435089a77a55c11dfa0b8ea6a2309cfbc, 0x70115b0a7777c18d39589373035238cea14a0292609861d9627c74fb15bf7ad, 0x36b4d6cdb913e7635aa27a6d2f6742db2cecba8c2385351fd137fbb5fb95321c, 0x5828cc9bcbd47aa4776552453f48eeb509b2c0a55a9978c904225f8964147b94, 0x2e0892c79ad6afd2f46d3195123dec91c58267b29160d0c96664eaf9ba5f002d, 0x19a984eb57293eb7816659d814ec00362ddaabbaa427fb021630e5768f8e6c40, 0x4587412db337056afda5170676695cacf8363323f994172d0d2b827b71979cf3, 0x79a50e7d1cc1256b2aff183a24a0f443f70339240b06732f0002568e80ce76e, 0x9b76ac0a73bbdc43aec5e0e99f84cd6d00d4e4828f26069f79ebf08c81a0b63, 0x41fb701fd65d3ebc6bb7867cc193d4ed946684a27192e82f730ba290ee220a7a, 0x329d9f3bccdf5d0661f49464b7ee4cab18e4a75050590ec055311658cdea03a1, 0x2d70b3f3a0e157f5f7f02369d3b1932b3ce52d7ef05156b7bac31e121aa57dd4, 0x4abb5d3279936d446b412450a7d1d2994981a5d9f5f87469f10f4664b405da2e, 0x234ca7e12d5f9adc758255bc14ca9b31c455d7789523585a16a57faf968dce01, 0x424f7f53665d34949db7409263db83de8fcd53fb44ac17aa6f5d5487306643f5, 0x3b02c25df5c34e9c3e49c06de141fef437f92c132abe56c4c5180022ee712675, 0x65c4b4fee31a5cf8504048e8a8c8dee843debcb44b2cd27008ce40e2fdb36186, 0x3fe2f4deb4d7ac9c96131d78fb481c6fc9290d40cef68e7eab65496906a7b9d3, 0x28bc4c9dec6956f70c80529c61b9190c43f0eb07484d11c8bb0ed3fb6f61c00e, 0x27f22ef03b7cfbe9fdc3eb0f91227515cf7a455f6a3126c4c1df41cce6523c1e, 0x57fae3e84ad0b36801fef1a4134b8cef259181b3a8053a5ec81de0950673b605, 0x591efed1286deb33f235d01f4e11353decee8dd977cf8fd7f35f8c569008ab78, 0x1b3cca1c2d74c7c8dea128ea842cfd67c6957f0d46a4d86ddec43f3cff3241b3, 0x579f53a2b1837cb40898cf86bae98587a9887958e3cdaec9a95da5ae95e66228, 0x43257574f9fb72238b6c684ec42cfc9e2363b1e0507454b810f3f3e9a4248637, 0x10d86a514945c9a13b8285a2f800a6d3f74ec081ce884cab7ff9eed02bba48cd, 0x3c1e58f64886e301c4723cd2c3c786f6bf9cb5e5b8f60a0ea5e1dc92c35b198c, 0x601312f824b21e6053bc05a639d0f16920f37fa478b30a321989e250a23c3799, 0x18c15babc92d34401513558dee8bce8b38a7d225962c725e8ef90cdbd1ffe18e, 0x6f82e9ab56c3d99815f97365ca90826b7814d76fb1921fba160074ff21ef2e04, 0x46ee8aeddf1f49432878eaa6eb1a91044ebcbb668e79cc92a867ca09b7566542, 0x4fc1b8190935f72388f8dcb80d56a0933d0bb16bf9bd7ed0f3f725f731d49f3e, 0x144fa07d3c7144ff62a3502153bea8e7b5f47b67c1f11f01a01910942e562ec3, 0x4a071d6162669037bc13d901a94d71704d74c237d395d2469faac318b9b0db06, 0x104043017dba9907090203dcfb143ed723c01a7b10e1af3ac27a9aec5064fcbd, 0x43ea66b967b70c67226229cae952f6def8d0b4830d3b9139bc4faa63291d41e9, 0x1033236fd2d5bd3a4602f5e3af6fc7b83496b6a5c64e34a134a5abe93bb98e27, 0x3c63d6550322333c321e250572e2cb6cb68c34d610d10cf9601a80d8cb0664ea, 0x1369e8fe8c5554f5ce9e74598231adf78a808c61976dc00f8ad7e142aeb9b83f, 0x2a986be94bcbe150fe4ef00231b03bae9437294acbd42fb90d8930f95b3f52c1, 0x250b3a7b2511cd2d14eb09ca565c65b180bf989c8aa50e37da8c0418d75d1b4f, 0x4cd341ac4ecc53d2e55ebb5ff4adfd2dc6acd42e16b838eebb23badbb2e966c0],
    M = [0x609b60c54d5893118005895c0806deaf1b1e08ad2aa94ca9d555555480000001, 0x211f5460e751918257c7624b7077624aaa362edc49241a48db6db6db24924925, 0x656ff268c469cd9f2cd29d07086d9d04a945ef829ffe907f1fffffff20000001, 0x19c308bd25b13848eef068e557794c72f62a247271c6bf1c38e38e38aaaaaaab, 0x22c74bcc2615a595a8f7c0cf3616f401991f4acdb332b532e66666661999999a, 0x6963af62e003892a5d1d50074e93217934daf23145cff68aba2e8ba200000001, 0x211f5460e751918257c7624b7077624aaa362edc49241a48db6db6db24924925, 0x656ff268c469cd9f2cd29d07086d9d04a945ef829ffe907f1fffffff20000001, 0x19c308bd25b13848eef068e557794c72f62a247271c6bf1c38e38e38aaaaaaab, 0x22c74bcc2615a595a8f7c0cf3616f401991f4acdb332b532e66666661999999a, 0x6963af62e003892a5d1d50074e93217934daf23145cff68aba2e8ba200000001, 0x6a44840c3b7b082cd99fb0b208d45b5a376dd6581553d4546aaaaaa9c0000001, 0x656ff268c469cd9f2cd29d07086d9d04a945ef829ffe907f1fffffff20000001, 0x19c308bd25b13848eef068e557794c72f62a247271c6bf1c38e38e38aaaaaaab, 0x22c74bcc2615a595a8f7c0cf3616f401991f4acdb332b532e66666661999999a, 0x6963af62e003892a5d1d50074e93217934daf23145cff68aba2e8ba200000001, 0x6a44840c3b7b082cd99fb0b208d45b5a376dd6581553d4546aaaaaa9c0000001, 0x6217dc5a0f85429f8dce7bb808267bb5bd02ed3d9d88753a3b13b13a3b13b13c, 0x19c308bd25b13848eef068e557794c72f62a247271c6bf1c38e38e38aaaaaaab, 0x22c74bcc2615a595a8f7c0cf3616f401991f4acdb332b532e66666661999999a, 0x6963af62e003892a5d1d50074e93217934daf23145cff68aba2e8ba200000001, 0x6a44840c3b7b082cd99fb0b208d45b5a376dd6581553d4546aaaaaa9c0000001, 0x6217dc5a0f85429f8dce7bb808267bb5bd02ed3d9d88753a3b13b13a3b13b13c, 0x4a867dda0877876545809d29bd0c9d27fef9e96fa4913b23edb6db6d12492493, 0x22c74bcc2615a595a8f7c0cf3616f401991f4acdb332b532e66666661999999a, 0x6963af62e003892a5d1d50074e93217934daf23145cff68aba2e8ba200000001, 0x6a44840c3b7b082cd99fb0b208d45b5a376dd6581553d4546aaaaaa9c0000001, 0x6217dc5a0f85429f8dce7bb808267bb5bd02ed3d9d88753a3b13b13a3b13b13c, 0x4a867dda0877876545809d29bd0c9d27fef9e96fa4913b23edb6db6d12492493, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6963af62e003892a5d1d50074e93217934daf23145cff68aba2e8ba200000001, 0x6a44840c3b7b082cd99fb0b208d45b5a376dd6581553d4546aaaaaa9c0000001, 0x6217dc5a0f85429f8dce7bb808267bb5bd02ed3d9d88753a3b13b13a3b13b13c, 0x4a867dda0877876545809d29bd0c9d27fef9e96fa4913b23edb6db6d12492493, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001]).* from "../poseidon"
}
