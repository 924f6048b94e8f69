// generated by tools/gen_poseidon.py
module neptune_t13 {
  import poseidon(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513, T = 13, RP = 57, IDX = 1,
    C = [0x4c4254b349a4b7dfa27570ec1c55bdf49948b10d0472e56bdfa84b3192fd57a3, 0x50a25d3eeac5cf86e7ade0597ddd77409339d5e7eb2b86c7e2df8f07ca5f63ea, 0x1acb850eec29235c0e8e5e1b33b88bfb07ca16b3adc61857bef12fc69f558ceb, 0x500c50823b8f40814d8ccb5c06aed7769f2bc2a4fe249088ac1b5ae37c7ddf4c, 0x5eb54ea13b2e1c0dfa5fb3341e3f1c075aa7418e2708779537e8526b9c9093bf, 0x2c304802bc9e2de0e6155835b7efeed6adb2f4b9b84fcd2f807f45fcab05cff0, 0x8ef90e8d4b0d97cd7f14510365ff025baf0cf12cbbd305a88df3f291ee55c0e, 0x70c347511cfb5c59982fc6061e47a5ed8a3693cdf14699a555e1b5c74e72dcf3, 0x2b1285f961ca8e5d0e8033c638baa936593bfcb0fa7790ed30b17306a91179a1, 0x19561b515b0a50a99a94291409a427d0298bec74381d75c64ec52084b09601ff, 0x26c6b591155761f30cf05ee0aa40ba18045d790631d90380af4918eeac23ccd1, 0x5d4eb2c69f93eb5b4f64821a696ad939c48f45b6710509a6b535ceb815ffd260, 0x6a059008790ac6aad0cdcf0c37ef70930f1d6e5cfdf2833317cc5123ee513332, 0x608ea1fb9d3c87ec279750dcce8ec609873dec4253d93379aea52bf0b11f28, 0x54be31b080ef896168b85ab362843b15a48e7718e982fcb4b1b8510964ef7459, 0x2260517a1bd6d7033feec8cf1b57ead61bc9afdbdc8e09f7c5bd9026227aa781, 0x1e2e14e82a21fdc5d0cab38cef4e056fd483152d4248ce6d5f4bf27312c98d20, 0x6116d586e51ad22eb19a1db8fb5d7f40b0d5f6a8762b28ba4cd91b8108d7a58, 0x536f31a17de64743f2ed71e28b2467ed66bce8e7d269afba8f5ec7da4235cdc5, 0x26297fe2697e01468ee65b06dfceade1a94f85da3e0e43486e4e2ee338bc2283, 0x54e08cc47d5ea38bfdc1e8b2628b29c27704544d141b71d8043a899824da1be3, 0x6ac44255a573c05c74cd572b537d02dcc3745646eacec44bfbcdfcb3cb6c1bd1, 0x69a2eea787f932455554c664bdf3737c01b990f4526f6649b6cd76447c4caf82, 0x6cbb80811670b10aa02137c92642546a8ec949295fc865fed27a4a2ada5b7a46, 0x1169419681246807561149b9df7ed4085ba403a694c718c0d4d3eabf26ec6ccb, 0x5db918a13ba7098a63ca6b6192eced91d8cfb266255a263cafdee2697ca8abb8, 0x4681b2a62c5dcdbbb2d10f7b0593818de5aafde9bd68aabc6b134076696773f2, 0x6a0659b639f45745f5193558b950463f516fdbbf300381a3542971fafd4e5f30, 0x11edaac74c64b05493bb4a958b48dbde1a06683edf51e92eb2426f07fba4ca32, 0x1a81b85ff08f11149541660ad71f652cce77e2166e2ab0879b2ad002b744151b, 0x25e111df6d73e60d5c2639eabc444f085dfa2eb02dc49fa15e325c62f422321e, 0x56d2cec8e22269435a65d2fdc3a62836ecb4e4ead77e778bb8211c9165219c3d, 0x58aecce43ecbf99bbaaae50726aa1449c4f812ce2b57c733fde48426f868f5e9, 0x1f841b370caecef1cd18e8e1de5341416239d411fc4dc0d5640ec8795a55d802, 0x3388d6666f9f6429e466ec838e2fcbc88889a4959641f5be00d0dcaffdcae936, 0xb3c916a697ea1b18112adac83c34d61a3ec8e9a0778d9cb311ef12749494147, 0x712d64e59a162b17d6c7fa327659edf50245ed0cb7791ffe08dd9c9711fddcd0, 0x45d35d1a3e3eedf9b433fc24600e309e71aa96ac0f10496b3d97e1798e3ba0ce, 0x6b068288505e21688b0d5e5cb477f89bdd4f93d8bd5040e8f68ea64a0d4b8f68, 0x4617a95fb337bd9a0b25b535b7c6b8d776903652abc94b42a1c05fadab1411df, 0x2fee26408e1afe4d0e61d9ca77e581ee7aec87d112620f3459f0f6fc03deb97a, 0x523694ad827cf4d4d109ee8ed20fc0c82c965b7544a7051e41865d7e29158793, 0x6e62687ccb6b7c16868b549867017b7bedd92848104cc5bf36392784ec9772bd, 0x8cd4ed50b0b2c73b54040498ab33e1bd184dc9bc495cfc754b5274d2d326d27, 0x5f804cb128a0045151061b41cf40120be111483525c6e77ce452ceb716cad4ca, 0x72fd23193c2ccfbfac6b68da1ff8b2e496577695c2d1ba441064dde0294ea66a, 0x30824c663fe39b38e8b5e46c049c0331d3445bc74ad8bdeef6ba911eaade59d6, 0x251164549881993d367e536686248e0902ccd8f2ac1840332dca62f090b3562, 0x36a1f112b79dfdc6646414b109e0a0390cf960acf616ff9d782c6b1b7808abe2, 0x1c10bbef8aadeba368b26178ebf58f4cdacfa3707716f97dbb717e554e5e5796, 0x324ee4ae13e9a606c91d5884fd300fdc886fc2de1fd2e2960713b4e7d00cffe9, 0x6ece50956840d2c66618aedf1f149b970bb5c501104e7fc337d576ed41de854a, 0x4d5cf01b62643d3b2465ff52673505ba9cfd937fbc5c5ebcadc556fecff03ce9, 0x38ef35eadaceee71f40e778f04ec603885b1f9bdcfe0129758544b21ca9fdda, 0x1a43b60383d166a0a199b85b050310d9da18d393f950e43f5d9fb702367a7d1a, 0x2a24bb3c4570c759f9272c4a6a863c90b81566fee28caabf208b8b8c268e6004, 0x113478623b183a86ce5d901e66fb216314ce14458a3a719e1e010a6130c55d2b, 0x4b0321f36631bd45f497ca319b052fbcfb1d5e2b65bc0308306cb2e8d265861a, 0x3f2988a7c81b900db7f75096b5002506cd51ad4f3668b3c6faf3033378d226cb, 0x4726f463ab255b5e4580bb00846e7107df8cc9a8e283e796573636e74495c8a8, 0x312b1cffda8a82f2055851a0a7a7e2a622ca87d358532bfab8f34e3f880a2fc, 0x14545d5d9720dc5599eefb3736c92135862928e8040a4948b7cfa4d8f8c5b674, 0x52c77e91ff21a99f95dac5b0810977f4b2986c2bf315005bb0671974ad88a701, 0x48d159b201a08d194de5733a4de0b37cdf8422decac6460c4c332f48269604d3, 0x6698caa27a50d54a0c9a3c5e222187986f0a99561597a1ea1b86e04a7c2866d4, 0x6e2fe13bcb8cd65d23fbf2ad75dc64e12363d3bf2ec3ee887d0dbe1601b5002c, 0x576cd9b887127bc005ef164c760b9aa22c32a67d5e6258581565fb742ad08ebb, 0x59a593b273df70d73979a8b498d887556e5d2b8e0b512b6ea224be829f166376, 0x2519f571c7d079afa06f01ddc0275786d528a064670b81509ee35b9e8abf4890, 0x5b64c54891c4875a1c2ed9f49d9ca7cd5979f35ff8fac320fedebeceeb5c6a9, 0x65010fd6cfbd97a35c127bb0d66574b13e9be5f7d4a5f949302cf432944c7b09, 0x28659a54f3aa3afc763f18124d6437ecc1d7db3c8579b062d49319743c0bfe11, 0x47e7f7dbf5f01eb6180e5c1408715b9993a70d46120392d0b2e122c87ee1e7e2, 0x661e71174c72463224c1c31ef68a70c2abcc09ad142d4bed5c82fe8f46946b5b, 0x392f799395fa5553d3910a3daaeea9c410b78165d7b9ecfb88ac519efe45350a, 0x6e5266b95899b7c4e32f83b747a119efe535b284ff7610d49d21b6d1a8911072, 0x5dec72d2ac938292342efca3efbb24c8125470d17e8200b9e68a33cdf83f102a, 0x2305930ba4de9c29ac34b5bca4e40dad10efe389ea3a4b553f7881afcc310153, 0x70cb74683ab8c4dc4097516a3e9d2c9cb2c53f8c7293ae787acbe45ac29ca2ee, 0xd72f7efe26a3f5671b087588aa5c0146b31b69a57d183ea902130ac8c0e9c8c, 0x15e9330fb87e9d2f1f84a37d7558d3b459ccd404d5213e985731d50424480cb0, 0x4ae58cfacbb5e662196803b9b2b26e7ed8c65b4413be2291e9205de63fc803ac, 0x4eae9812c875a457ed2cc65aa1cc48171c92f035ceda44ecd20425b84051d3f7, 0x28fd1ec5324fef4a18d84befcc41537289f77a6bfb328832001ac718c5e8fb92, 0x702d557c8ea70b13bef185f35c67f1072a81c1b706631f8c2965d37cc28c7507, 0x4770b6610a09f72b2925427b36375a08d0984548f305ad1fae68198dfd8bafd9, 0x446394eca4496896ad993f2a6227dec8fdefcb3b21bc50a2f5fe2f95744972ec, 0x32e44da791d84bd47dd5e8f5eab10fa79216f8c4bc7d0c4b768f1e7014620070, 0x3258b2a6698029b0f3dea32160c9acdc8fbce3dd296b1bbd143d0db9977c6c0c, 0x7035a0adcffb3c29a13b41a647ea34247c85f04d6244c59dc10fc07374e62028, 0x8551d3a6e486f3325bb517442e2890af4624eb50d6456184df65cfded2e727, 0x34293aa2b12487c82c6b6d9570b6e151e0dd04c76f0ac0fa07d549a6a6329fc1, 0x5b6f217c8fb8cb36aab3b1281f6397a2260a050acca5e7a86d07aa84a0614cb7, 0x453d8b8f2eeb8a34fb7a9db08b9b379e16a0d8e3131f4f59b9b3dc138460c4d6, 0x2f361d18f38f685c4244fce471f977c9f1bd67c6ddb8a628e1910c3cbdc6bf70, 0xfb890784cbb798bad3ff1fb47eb750a7ea4c9a7c9aacc30d181b8da33b01ce2, 0xd4c031bf04ad2db555aa99c23a5fa6d0424a72557459fcf4143b2123bc5f772, 0x51f37bcd75b5fed03742f2131ad9c7db6639521261f8473d5015d08b4280d406, 0x141b1810e597f335d55e8c11d9df31d2578113f07835e77b09859ac39b1d81cb, 0x25d7cc26542425955b5e8f76e4c446a422761b645241bdec2b94096c3d8d9622, 0x27a8d5ae1c75a8ca1af539cde9c1a09d9114aad046dbbcee88245bd04ad89fa6, 0x1d20944bd882bdf2bbd82297a64c10bd630769d6917c184b4bdbbbac18878f44, 0x410abd72b70d3dd8a553b007d6d7d20981413f9f8e6d61c49edcd65e2b09cfbf, 0x46429a5dd791ca852a1162e121195a02acfbb988517e5333b7047841a38c75d9, 0x72ebc6fd2e0c0953d7acf24b37d7ae804070f2b989d2a4bd0edce71d631a586b, 0x2dd41921c8acd9d1a08a36ec3eb5e2ca1f54c3b24a5da04a5f33a87e73a400d8, 0x114cd88a32cf817abea71c9b8e221f2f04d692de64018d854d6bb32023f38fbb, 0x35b1918f54e474b9a68425b7c5da3f4773ed669d8f92a6ec0ba844c6b36a0871, 0x5fafac0935bc5f6e3aba934b76c7d6263358e59401284bec3decab4e8d93b1d9, 0x61fb881c4240a7e42a7832319d2d9eb8140370ad79449485a0799b05fe1f919c, 0x18a69517c0da813a63ec499f05a0179768577bc160020f815a44775202e3fcff, 0x5267747900a0c02b2e7207c74a1650f1654020696cb34a1227093b8ec4637f69, 0x8a544a570b8707cf30f2bab0dba87dd0711fdc722bbe6b2ff16645b692ca7a4, 0x3008052682bcaa3278137f9262a5a8f12d5fd1dd45807a44d26f37c37c206ec9, 0x121309e28d6ba15b1a840bb73d0c810796c1670380fa4051303778f5ae23ef96, 0x4478438aae0c8547a9f0e27ac4d66cada8f2ce3e474a6babd3796d39f1db66f1, 0x5354d8ca60c1d42a6a9e22eeb591bec2540ec2d5d21c550484356ce4bbdcf157, 0x4b6f19971d4eb217538da04a4b398e4a57ea635c7f86919952b18fd4f60ad9aa, 0x67fd16d917ae8d000fb208b6299da81b7473015ca0a4a76be2e35be1a9b95330, 0x439788dea4839518b09185fb96e858758a8e3c2e9ca31ced5280d5a7ba70a3, 0x413e994313e77cd7fdaef0d93d802fa208d7195ef751ce629c6cd053ddb83af4, 0x3e5d9773e766b3d0592e9b4501e4e8c660604472440e0b6ec8f1356a42152e1e, 0x4cadb902c881c92c644d890189da0a14c7aeb403fb0f14e966b78f8ebcd2e9a4, 0x1c85a6cb4d565b928e48c3c8bb3fa61eef37b12bf7df78b3e6e44457e081007b, 0x4e030187eb06c12531acb4aeac4a7d071f211feb6cd72d02f953a25e85d62366, 0x5abeea9f401bedcd61f5dfa63bd753d31025ed5a42c15ca443cee7db817fc3c3, 0x148011a72ba2a8681b6895cede6c642814b126efc7cb78ad160bf8e61fc94589, 0xe705d00c80156f2b7d287f3dfaec731e2115b4db0bc24738aefe5ae7e303fea, 0x5ead62c221932fdb9694f604e215cc1b162c819a9490dc64275e8131304d4cd6, 0x2022600c64fc95de70d1f3db87f1489ebcf3ff94fbb31e6147d9652497246407, 0x1a629db07bd50a0b72d08ca8a0a7024e4d8f5bf2e3b604d667a14fbceac0f725, 0x2b9031de6bbf5684146a29d8f441deb8fe4466cc72de08b263123984b42eb6fa, 0x57f3199dffcdb80fa736202733b794a9040575af02330d13198064a053e1ae77, 0x4a64616313d4fabb82cd8c32caac0646b0eacdb576d287009c38d6931fbb95c8, 0x301963e9e7afa82cabce92a90243a3d18d6894080aee0a49beb3788a40cbebf8, 0x5cd66fc9bccf7f38660c47517b22026cf5008e32571d95c141575e7083e6296b, 0x508ea6caf003de994695439328c78bfef2731678f3b296b2a08081ca30f15c55, 0x19cc75c05c5476d79fb0613bb02a387cde0099bc6ef52917a6abd682afadb45d, 0x541ac8d0a9bddb2031e90bc336c0e1aee662fea112c0d6c841543c0eaef6f13b, 0x60c2d4201727ebda6ba097984b1ab6dd32ded141a03d6e8b35c796eda3cc35f9, 0x1789b2cc0aeafcef801a7563ab4885e4409c28ae7f9ee115184ffa80eee71b70, 0x400435ac8302d47d519f6f6a8fae8850833bcf4112792a661680e16e8681bd71, 0x627dfb24b0c671f5d35aa261cc70fbb7aa0027db90a12791ee7dba65a2b40245, 0x47577d5810489dfdb8899a60460140c1c18482e962bdabf086ddd0f7f52c2c3f, 0x19c1ff429ea713403c8283ee7c77d11227c9bc65dee3f3fd4ae1c786ab262edb, 0x13ed8bb29001b26f853d2faeedc64254e4438b7fdd4a66cef78cc7a542950e61, 0x4d3fce832efba7cbb4e44d0bbaf1574b6a2ba7315a2eed1733dd443ed12ed09c, 0x7294df0ca3dc27b2f82f678934dfaf783f564ad725de5274186d2a38c1ebf468, 0x48f6dd4a218be22036d335c576f91ca6253e401d9bbdc91ea962202f171355db, 0x69248783d31fb02d8ca0ef31fea555b4019fc1702cebd36ae750b2566d35b554, 0x5dd98219762697824a6350e0ea7d88d254b0c4a0c33deb50c514ee1631cd7a42, 0x704fa936ffae839b410dea4bf2cfd51a4ef643857f13e1f7ff2e94d5add2e0ca, 0x3c47b3ffb45e2b37df698ef4db532832e8eba34f4fba997adc0865633ab26c23, 0x622f0d65c1782513efb49bab2984b69278d41e68ce803b415896f25e171e3aa2, 0x5837f56fae4689526edcd154f7e15f8f648289aeee13102fe4157472189cea, 0x1058339d3d0e392c850716ce5714926af7601c5e2d95b82d41a43a3bab5df3fa, 0x1b6c0767b2797894ae23a589208136ae70c504d62be75757908ea73e99568126, 0x51a13c8aaf96362f348c1d34d13a258f1b64e73f8aea13ca7c367e359858b8cf, 0x75800dd3e9b359486b351f89bf4d29ea3f0f9cf1418a689a50f454f63b8c9a7, 0x724d6bdd2795df0180a0df1bf722dda3bc91a454c6990bf4d0ddcf1e4195de65, 0x4849bf3ce70e26ac48603a40677bac70e291ed04526c09811ed27bb0bb686626, 0x55f8c877d752a19992419d08eb71b55e9780f29cec7eda93150927bbf1ebd81f, 0x29f81fc3251e448317ed7f7c4a6dcb1ea4af842a39727769bd8098dce98103b7, 0x1ea1966f125e0f9646f06a8a99757ba56d56343e017ced31e0e7b0e13691ddd2, 0x675096f98cd5b33f46b0c988434296e9aae7580ffadb1e63bd4065537a9ce088, 0x5a95dc1a0dd415c6b671102c86361dcc6432c494f2962911644e8d3ad42e0d92, 0x23509f680990506ed1d023e9a358299f222046776565135de1eff9a90cb14a5, 0x308a607be8edee18f5c615c885f0307d1f8561cbfa2e618cf73cb9ee93cb22d1, 0x498074bf588e7f356cf93961bf3c930157bd7ac5550984676c54aca547fea5e4, 0x654a33d8d581a5c24eb15fc5808e227bb1a054de62e4e5032a1e14c33e94fc09, 0x1027572f938bdaee4c6e6799f924f922eb31a8e0ab5f417ba6d460f048f1335d, 0x1fb6e4efe2e4a5ab3e0d43eab5799709a15202ff3a39df53bb8608f68ff986a1, 0x2b61cbcc44770953d429c3bc3315e49a58ce2a928bff8a9c081ce3e957fd2cac, 0x33a2958ad50f982255c1ccf61fe635efb979da3c1ee659036a8ea44cdb383e96, 0x43a68aff3bb100cb8590cb6ecb4cf9e81c9276290df2fafc670feee2e85e5098, 0x232a1f1b4cfc46da0aeda0453d416645dab1f9b8edd01cf93bf6a38e25f789bd, 0x13f2ed93de1df97a06192e1abeb22e145e9392b8534913dc7974075d180bb81c, 0x57a77c8ae69903381de0745f4614a51f7c821266e06fcdd7f11263de34486000, 0x48f150d0cf2fddb0403c36ab558dbc10befeb349d61c948b44efe144eba011ff, 0x35d4d5158b59dffc378cefebf1f2e6468f303734a09c34b67f1f0b9cd4e637b4, 0x5e6106a20b020dd86e3e0ff66b68dc1c78b742f622c580e3eeac33d295b9ff38, 0x43c6a234b4fb4e370bcfbd0a7d871900819533cb1ce19f5c08cd6b55bf72a514, 0x40d44b6abbb3392a9701b756c01bf71b2e3759adaa192f83d38c53cc8f6bf5c8, 0x45c1fc686a563d13c232e7662ed4f8e076d2fb0b52751eab42d414055701a7a5, 0x2203b554415557eaef607b0131ae80488ffc65ed3eadc96ba17ffd99c711b8df, 0x5f251c9e8216db1a3094b69815c26fc0eb4cee13c6fe0768854cc048d094cd6d, 0x3e425abb4f578c5ce18c8ca48acb5214a650b7053d2a642df96722627b162c3d, 0x23e89bd76b1a45921cc1a09288c7345b54d1e23bc0db9592e8325dc019684bc, 0x393dab0423f4576430f28670ac54f9105bdf4ab6b26b9e5bb4d3d6e9f6f389b7, 0x37442db9a384323dbc989282581e1458abfb7c9f86bdbe7e036d704ba750c5a1, 0x37f844f3d9d4f9309c1a082c055ba998549c04753b38c870948c8ee4cf5a86b7, 0x6ba06eeb6da59c849eb95500be62f4cfe56509fb7ea48ffa434533a6fb7e22ea, 0xfaa2235dff5f35809f43ddcc57545c1abf09671414f2b12499a247ba72ce029, 0x26ce14f56286be376e121625ba27df1c5490a9abc5c3bb6c71281726a39d7d4f, 0x4436436838791db952bbd2be16f16ff5d95eb27e4e82fb6d1cf8a40986288254, 0x29206f91b100829ce642b31475a9fdb0d63963fe601f253ac184d24c98318411, 0x431afcc54fd249e86bfb62e9842b7172ee7014920297ac2e3427a273699a4aa1, 0xd5047879b0ec9792b088105a216fe25a851f4017ff6929e2bbd992a0631f6a4, 0x151406914f2d021e3b35e9b35790aaaf535da065a2f22721b91082827cb1fd03, 0x1be7a700f8d66d37c0caa88486ee8e1d3776a34c0e1b1bb17db961aa37d5e489, 0x6589eab528be744f106608149bc92f072532aa169da6c8123b2fc8a66f80712a, 0x6144d3a472800d86eda63cba5f27bdbd1c352d09fc23a3ea05ff9aa1b3fc873, 0x417595a70168c990894d2cedd51ddaa7a0fa70a42c49bdddfd37f5f65c46b6fa, 0x57a983fefad62f1162e08dde4fa696316afe94efe2b1fd5678f694e84c741251, 0xddc1a1eae4d8a03388c5b862285971d2500c86b623b44dcfb8c39a607f1017f, 0x5d74e019e57279e181382deb104e32cccdef6e97368fb883146d17b6269015b3, 0x47d707662dec84ef7d611d1d447bc17d1d9752ea2144bd9ed2adb9b8aa1b669d, 0x65d55a1460523bc4b361d4d704e6e68c0b589c15e7a4133892b3e6cc9c64aa1, 0x2a93750a4fcf2ef5b5642639e1f4aa16e792be1762cf7f38668f9568f5ca6376, 0x2e987171d107fb07cf7b0ea89f21007fa0bdbfc0fcbacc06cd56d2d31c5b9f73, 0x321c638e9006038cfa6fc05572864ad7d40320f1ffbe9e63c67e377d5685dd3d, 0x4b06ded7bed7c941d17a68d217428d84b1da5556b743982509b82248b84bf0d8, 0xb1cc88651d2654c8e199b08d262e6d9571b813aec8d8c3eaa7487c584c13d78, 0x514fcab52109cc588cadbff42dbbaec6038ca26b4cefa9182db1b7bababc84ca, 0x50994785870eae62562e6886e99fdccda7842ff91955c03aebdc5981a8decff, 0x30aaf29c41dd73c381c57df46f090b73a36c86a47a3ac801cd361914dab97718, 0x4456c63cb577b1aac20654b591999352c70e41b5f013f6e82876a0c49ebef28d, 0x3240a5c4893533da07709d78b84c718500489d33b4e1096e5f789006de5ad19c, 0x6a1745a8d4dc55f6b9b9b88f4745effa88d011aec94b4ae29d35049b57851264, 0x5e5cf3a8ac15902a94836f4f0cd012c587cbef49ef93ade40bad4578fc8ec7a0, 0xb8cf5762e7b52bdd1508fded9ff70fbd88e17b50d0c18369109a701b5df4e4a, 0x429c6b0d4abe327a82805c7ad3d6bd107807a9e94f54050976b094968aa18d5, 0x50dbc3e4b2afbe4d0aefb881e82824101370f2169d39f176c97372ecbf3453c8, 0x5213bcf1826596f65f8f70f0cbe914a365dbc7006a662465bfb942ee38f3fa9, 0x11d2a5371f195e5ef299ba4de4578d28e28294afb2122e91106c34160f0ca10d, 0x5d0c7a1457ebb08fdd995baed14ca645c6bb20f36dffd1f36af3510a189ce752, 0x6082f8b189269fe9aaf5be5f1bc673093b024b1a53856562b7d1de44bed57dc9, 0x215704db45d4a8ca932ee8bda846b50d9691c1887641881f571a5c6caaf05aeb, 0x6f8b5e467127fea9c381b53f0584fb6092383b4da78f9d53d57c0999ac081e93, 0x4a28bfdb3876d323c77931fb166b62549c5ffa96d24944c7b28d924513ef93a9, 0x52f8adc4229e06f362a12ac63743ad99269950c42f1918b1f23ca87054c3f093, 0x721836e3cefa99f70306b815bc1cb6a7d9b603c7f47aaf501dc850a5e04d8c46, 0x67a040eebd21065381eaa7080005b877da11869ed97c1930505266c3a66dc53a, 0x2f759fb2c619d26cb6fc64944bb5f2ed1bc210e9d61935f6fe9e0a08daa1a6b9, 0x139fb07a173f07095586c83b209a6258c2792d0bde46f91c28f6acd72f981ec2, 0x4eec8cbf02072bb0eb34f213e548ea6464b5a9210a1ed07a2d0479faa5b14ae3, 0x632c6ab4de446de08e3b2a16b0ba87855bb3e871c7853d5c69c323776a4cedfa, 0x2ec3addc0004082836ac022943a3deede462c1a21bf880912caf529e65dd8815, 0x701c190e5f2bcb3f735372a788e10e7c754593a5148d1d5f04cf50de6e613c9c, 0x22c5c4cea44befb207ffd6d46757123fc5c914cefe08c7be5769e334147bfe6, 0x28174a86de3583e8cbec60e6207cbacb39c9b9d00a40786d6158772ba8116a73, 0x60dda06456c1332e53928daba53aad89a4dbc84540c4992cbd55f74a8241ab7b, 0x4e5f7ab72eb19c25f077844cb1da47f6f8d163718432ed796a71c8dbf3bc9764, 0x66f65757e54753344d902fe52a27d17fbf15072bb288405089022bf96b03cfdd, 0x4b362b59356535029ea83df9d94665a8dd4618a17ae05223a07d474a9ed667e3, 0xd2e4feb8d49beb5ea274758a07ce6d1d0feb006f775e4327120da01a2d1adc8, 0x70e2b466308b3085b62128d22882f776ae4bd418c80e06ace9d30a454ea102cf, 0x539fb38de473b42ce911501dcc7221e90a81c352ce7b8a8e11f3fe4b654b2e1d, 0x181e2202ff1da7cba081e3bd37eeafade4567a796a3f23258709bb0086e296ba, 0x1d02d2cd54a4efc886cc76160b49f46bf18b08595a35451229ea0656acff204c, 0x43475132679e35d9934156dd93872fb65e0e3a44c54f93941dc74c23783b24f1, 0x42b233254808727b4a65c7b0f7b39310c9ca4352a3a0bdc54ef4cea4f5b10422, 0x562422c91d63a4fa4290c636e419d0007e07189ca4fdcd6bc018f11e7e095324, 0xbb273748af01e6180a163da88ec3dff8d001d5370b39da5ede5170d722750c6, 0x643bc980ee2f298012bd81017ac4747a83c3cfb00bb12cbcc61dd31f9838add4, 0x200a1446cdfdc990f96bb9216513ee13300e1327dd9dc92ff95f4fc8dd1b6f0b, 0x6a66bbe1f3ea4514824cdccaddbe1ad723a9a68dcfeb43c8ecaaa85af86258d6, 0x30d1b850555f97caed55712c442286e33e504a2971ceb1f2d7dc54d4914dcd5d, 0x352acb8c4c1c76932de09eb1690cc7b3e532a17857d4813b45c3141ab395838b, 0x26451ef9c5ab64092acdd169d1b30a2f1aec8bb6b99184a762f38f96e1ed2067, 0x192bf7e0e7f7ec1f5cf5413f77b8268e83adf5147a07996f766f30580185a08e, 0x4fbd04709efba968539ddd78a8d910941a4be8a5d511a8ce808d3e7df85d1981, 0xc620eccf9a5b092525447948d6b8d1d7e227cc9ff9329898e6f294515e6a0ed, 0xf5b692787e41d1ae02c3ab983bad252ccd157745109f2717820bbb3792a7bff, 0x2554d57cec0099775e612aaa3a4858358038ebcbfa6fd2dc63ea6175d58b5ecc, 0x9200cde2cabe41c0a48b24b3267de497a3a165e0dcdbee0d8ea71098450ea6c, 0x53a7c5eb046eb9419eb4b3a3c360a388ca3d86924dc146b52be6c2ff60f3ca8c, 0x35afabd350365c640ce18868de5529990ca6acc46c84892248f157f153749643, 0x58ce804c703dfaf5d42c21074c2702163f04d106f4d1a0c1482270f9fab9d7b2, 0x95974baa916dcf4656daa68e0bb677499a1752e655f6b31ab26074a229f174e, 0x5d0edfef2982cf8cdf4f60839d7691e9808bb1fcdd4a51a67cb05dbb3ebf8b19, 0x205a6baccd1a30ef339d6c5bf11ae2aa41368409dbddf491045d260d812d6ddb, 0x32000a719e504c096a87f5fa1a836eed682cbd667796498384675d65b3555f22, 0x5357c72792c8d78a56ae83e6fb413d8481fbf7a957104a22170344f83343c722, 0x2bd6da512455dd371aa69771b1152dd6a30ad65994dab85fd82795f4d54280f8, 0x5b2a02025fc2e9b572827b46c701eac560e20cdca4935d7fb2fe4ffa72c379a5, 0x5c95f11c0ffea5d10124547ce3e1504092b68fdcec2f706f71d3f9ad76fbadd, 0xe4d17f4a6561cbc17ed69bd1d7831ff10f8d4db8de46040e1876e4efcec207f, 0x4ed45e688328820ceb8d8659a1a71d1c86fe18825a4515b8e62e14d1454e1c23, 0x17a550d224b081be232c72874dce0f6648c3b240e2808f013d6997a3e484c2b5, 0x441a4d290bd571da8b7dda62289e90c21d76203b5313c7a1fc5cfb7af0002478, 0x1770c62416da6c91ddc0bfd251678fdaa16b90a019449b8c45960dd93daa7211, 0x5cb900aa3e8cf8b36181218b954e094462a43c8a259739e8da94b11d7d1a3898, 0x17a004af8a79b257b6b9456459297fc986b4e29b6522ef6d6450be63e3873ed4, 0x1fda2207252babfd0a3195d95914fbb08ba38cdfa4c83de5da3f9c8e54102e47, 0x36a59b0dcbb5121655a25e75bab6d5b7fe2046405f05762f4df8e2c7a93999fd, 0x6ef47a1aa560b4a3034397e294f48510c9b3f5cd3ab5213e4e92c21e81daa576, 0x5751f255ba3a8ac0d7c35d8a81c74feacc3e37f3fee9579e7c3415c3c69de388, 0x91fb8dd50c642eb04fa43e150516839c4bc024436bf8b92bd322c9f05874616, 0x15089aa7ccd2e727d3fecba9348cb8ae551c1a5396067328f8150d8d9fcd1c7f, 0x6d6ea41efe19a71284eddaa05a5372edb9b2f65b3db4410b275312a982f0529b, 0x286fcf2685dda5cf44f935f298066de2dc1913a94eddff8debc29674d6063031, 0x30a29fa8b7a3ad468a8e7001dab4ba16d33ffefafebb64acc234bc3ed0065544, 0x536938259f2b94f868c2424caed71bce2c09398192f011e39d12cd80f40b4c47, 0x51571e752e25d1c6f6f0c62546c5c5b2147f7c51d86861875d2a39ec2d7618ee, 0x66ce93f387314079f1cfac0f613c8a50288b5d9b9d0f41c5b76c0c217f74d4db, 0x2b75ac0c737f27d18a3b713db6c8c926516c94f10f73f3a65abd8dd81639cb87, 0x34f6751466ab4c35545a62301e8becae77d4ec4ec0528123bf54cac8b2d5221, 0x57dce572ac1d9457b6fd1c1ea938ff0035782acfb0202c04f796ab8803ad2c75, 0x5206837d49de26b0a8054b2cecebd2193877b8408968b97e382bb23d334450ae, 0x714a92adbfe70e63369ad1ffb8fbd8916a4c095b64d76efbf1aee838d524120, 0x289bc42384f1fd3f62f75bbbe61e3544d420620186b4846a3bab46869040c84, 0xcbad6f21c09c16b8b435a4adaa7f1d5038233fef300d871468a8c6524e7b310, 0x39bf53e85388551281286d0b78306b75470de7664f758cf276523dfacadd0e13, 0x1a3d9f83cb67c2f8f057adaf28720418e8a33c99fb52d57f131cb96fd9c4168d, 0x61ba82571273b3ef6e1ea0f758940676333193d724b139ad3c1fc929cd88ff59, 0x5b084840698f65e7af6e3952dccafe2bf73001b253436d967d3c810bffb02434, 0x384efb214d33d482ad241c73493301bf27fee01c635692d786ea77b888e87c1c, 0x28d715d49cf6dee4ddc73734a86146d761d6e757af849e898a3d0dee1b845b97, 0x70471556accff7dd2dedecc3360c567b05e5b4871108547e3812dcee00ce1fe, 0x2e0b3168ab4267711961cfd28efd444fb445ceaa73809cbba72727ae139273a9, 0x2f4d3223157b55a6f4f598edea9911fe573fd154b31669892ef1c8da33a871d0, 0x60f8c474685df0ec90ad92f92afefd9a585e4e9c6fb22427973a113f9355eba7, 0x614831b1afb01e0904996536597ac4947c4cc63b495e1ecaaad758c149a3cc8a, 0x72359cc7c0b3ce236a332543b8de8c0945591dad4f9abbdd017e2e21eeecdd68, 0x63ef389ba2be80b9ffb1417ed93645ecbad0341b568c28e92c967bf7c32a9306, 0x256d955af53cad2b17d511fe72e6fd783660769b0d0fe22786a76088bf134648, 0x6aaad094b4d0abd94ffae86296e578fed08f1e1c2ae5e34baaecad2b5eb3fca2, 0x6052b350012c6399234aa3824fc9745ab3924522832fb98451b4e03446af31cb, 0x6d5afb5d0548221f7003c5ad21076bcab1db607e075d5b32dac9b8a1365ee288, 0x370f1d692b04a94d5958ef513051f45803999035570025d10beb74002232c428, 0x15c84d4176f8032e93c40568a1767b45009c423117196d21e85c9cd1f15d30c5, 0x550f8f37bac6b38527dbafa8027ae0c1bdf27679bebba2f35aee6d75420fe7d9, 0x4cb0d4c3c6937d80ebc2f1568f40231340dfbabfa1b8968e56abc51c3ade77db, 0x41cee3fdf87e3602b90d2466aea54650afc9260075cc8361046a1e4d881b1da, 0x25478d86d0c84973bdf0f838752b5f6f938bb3a329cb26624cfacc5fcf2a2721, 0x4fde7e23c845207ab865dba4d3ece056427f1f3a8cda1360600f53e483a381e0, 0x3a4663c9248873dc4893474311763e7051d0fe6b2248409588df0093e3578f7b, 0x72e9e6d2e6fa86f931052250fa0c4d9d3947bccbfd2c9992974b49b351044c33, 0x5fe20e1308565e3c66af871ccf161b181bf5126cb30be271a96e7c6a45a724c8, 0x6f354980ed82c5c21bb77e042ac7ab1eb6fd05bbc0a817e5d9a95aa076fad917, 0x15b0a5f6bbd3e3a8251bda748bfc22724b99a9647aec4ea115acc2de3738c2e1, 0x44fe1054a723ed6527e2469b102fc17913388ee8bfb5518cbfce619786fa4c5a, 0x132e8f0f3050b1eb5644fd49cde35cb8e9b965e940fdac5ff5fce351759c2833, 0x2f1da9cdde62666d2f794b1d4acd33ca02f892a4dde0e6e8515bf730fc7a46a9, 0x64d2c023e894da2e4a949883734fbdafe96728230e2471f49a023cafe8a13d04, 0x34c661a2fbca983a6cad275c4fbe3501e52ec1bbb7e083a33e2d09a4061e0758, 0x2cee7267231db080e1b6233abb3ee289435dc319187cb44bfd327b1672375c9c, 0x6689cd440357109dae829d2350506411ef365d3bc74405bab56ef8ec2977209d, 0x5d99782b3d942eee7d6bdc6a8d4129bd9a4876d82790d7e2263d49de9369fc6c, 0x3dd23836c2f4db15a045e578c2d0066baf085d8c63645e13cb2fc90379cadedd, 0x13de49fb00823bac3855026d84f4d03a4ecb739e349aad31513e56a01cfdb3f1, 0x8102612c17ee0b62c098d5aca79f5e9897b5decd44facf984628e56c834650a, 0x6439dbbfd58c320fea572fc7578e4b63bb17d3e7d856193e7c849089ff824fa4, 0xf2e7408772322f1552c3a1988ea38ee5615aa2580e4b0638fae7112aa699b12, 0x4cb823c002b6b2077616e870ca11a254bf61bbe03c31d7f81b376c22b62e2c3d, 0x421b261da963218ccfb9d127f0b87159a2999704d9344116fd45be70d076a732, 0xcd3d4844421231cf72a0bf300b1132f848bb3fc1f3d35953813028bb969a6ac, 0x25be7435c4774ef1fc3e2ce0b21a932cc3c5a38c433005c5a34269dac1a5916e, 0x1093d411a327d6eae7ecc0d355be8a2267f061d5b3688d486ebf700f180cb5cd, 0x243b21515d255320cb9a417568cf9394f85694d2a33877536fe2648fe46bb7bd, 0x179cb92589a00ba4639e2b57f6d90f453fd7667e58049c99c03a18aa488e130c, 0x18636fdce5a14483ba6d34b999cdb4bbe6a7ff9f10323a045b5f98f111fda9bd, 0xd714ef32e9b73f85221940283c4a4da595a0c460328939c05584df5adc37e7c, 0x57f77b01f55a3f5917b76ba07adb2ce17c470b06928e27bee2118edea6bee922, 0x53962cc1ca34e4307d6a150e256822724d57d3b2c48586695e7a3aa37fa31f38, 0x7134308f29825e0c284ca35c18c5056b298468606b95719f848876f84ccfe642, 0x54a329f47cdc3b8b607738ed8028d427d2d0b763511232697e53cd2b4729ce1e, 0xedfe121e8c4e895336a9e247edb1ab4c8b61c71eafc47cebc6aa4dc14aa133b, 0x4481cc2058f11fe19965902c103840996cf65d565b0f85d197aca3088bc39308, 0x4183cc806ebd513a38de9982b28776ab9901d68348f76ba1e6aac6f3fe68ee, 0x1cba686c8372de402daa0f224e2f84bf143c008d26a78696c599e7a500b49d3, 0x3454791374b133a07aeff766a95d3919df51b7dde923c7c9d8d91f1c0d94721d, 0x65e4da220c474f81450e63705210958061dd45479c0d22adec9cc6683c463bcf, 0x6cb217bd82192428e77d3d33a343611da863b2eafdbf68de6b0a6c263e05e979, 0xe0c95af20015a4ff57cd14b244f56e97d008423841b622e7da8ccb7c191122d, 0x2c062dfa652e8b389c10d8dbe652d2797d4787428d1f0c530fee35e69be0c64e, 0x48129d1e5fa95199d180b163132cb4904181fc772714128618414090eef9a1be, 0x6a721a8b2a69c610b683400e9c27f0228291e80812f4d217cc356c527346cecb, 0x32c48b8aecfafb838b0dda055d763f0e5a3aa5dd3a0b8b27b21bd5f8543eb518, 0x133f8dabc0734380335e2c0a5d789b015080dc636aa44b1fc44583aeaeba6150, 0x680054d181b3fc29987a9adaf7beeae027d7502166edc995baed37d35e6ea4cf, 0x44e0c2a9afab9de56f3ab134cd58173edde89d7a415e24c80e0d2af11b69d451, 0x681b6f258a01d4b694c445e320e0abce05d874cf554f7c82bcdb22baff1c147d, 0x16060fe13427a2955ac3bd9e64870819790d93e4d9eb259e55f3fb92df929538, 0x2b27804c06c466a23dba77d5f9ff7b7d45a75a963a4bcc304b2162f94d3edad5, 0x44900a7402301c583f4c330cf2feeb20755d62fc500a207c2554b8ec60750ecb, 0x2095ee9b82f1622d7dfc3f42e65744aa4c4906be7e01167ebbb8c98bcb6e55a1, 0xc2da4a0d38b9a0ace1e9cb1efb92f403ad2a99833985d124efe5f3272a18f6b, 0x22dba495a984b94e8c7d40a420b88c1d8be765eee098688b91d276827c99227a, 0x26dd8d24043b4dda660250ac37e32d91f34892c8e79a7e885d3789c8b6d1a6a8, 0x69c5f12cc066f238f99f84cee212b8f3741306a9c73dcba2ccb7a87fbadaec18, 0x50902e0876624c5aa3f16a0d843cf1fd3cfd7f3e3b7feaf7f963e8d64f07e01e, 0x4fa1a4d6961f225ad5aef2ecd193a1b42051cba44b18bfc31982e2a19ea4d4c0, 0x62aab220d8750ee3f2420bc373fdf8f5604d70d1a44947164f3844bea58e27b4, 0x3e778a6cc8cc1a0a9853144e1ee7b691694aababd0fb6de0b4cfc5f3f1683966, 0x6a3c19f322f3a016abc1eb6c69422133f258a227e1af104484adf17a90066179, 0xc950f30ee795f0f0925be60815410cbc24acf1d7b5d49c636b19d5081c68d40, 0x1cb6c7bf195042410e4a92f844405fb361befd3c726b4231ea5beecf50825f25, 0x526adc2bc8d7117e6fbc31624a0045c7e5ca88d3aaa210ed0a8c76c632584bee, 0x9f8a82589f3ee930cef88f46eb9e245f922d7504a578700dc4fe457f20ce2a1, 0x480b2abef9c041d553ca4c501caa0fe0affe206811756f7955676c302b45f6bc, 0x3fd7c5be59d7a1cb01c47b5b01f11adba5bf3d669b6bc52b44a6be3d1e3acf1b, 0x545e61ca0c23fae76b09c849dd80d558e6a1e9a3167dbd73b18fda0666cdbd04, 0xa174acadb8e36992c1a52311471ab4b49ea0c0208fade1dbc1a703cae011940, 0x3acd16c858d8fb258a42294ee2b6b78caf5af03e4dfa1b2bdf2cbf73406d3929, 0x2aaccb0cfcf0978bf3f82d7f548f952430635fa0f571463903e7966a41d740b3, 0x3e2071b9f16cbc5e00da376c1b34a6327c2b77b6f35f5a790c723654acde27cf, 0x65b39de23545f2c9f041a5a8fe2612faefc4e277eba8fe3ffce22c151047fc4c, 0x218af72fd71ea0c1560a7ab371daecd35e1650202832f67809263136e8b9ad1d, 0x28da079e1a7fbe1406bfcc53a28cc200872c7b280f58ee50ce235cf419e72d99, 0x208711515f454b66f740079e1530af255587176ab3bad5255757b0f2da3a8415, 0x3c38c2a48ad8117bd155d17a37ef1ca379cda07b6aba3960e1c2d8739461ef25, 0x434df5cd92ab45ca50f0f149e21d72889a56bef4d03d3568b45d82df385898d4, 0x582eed84908359005ab2d7ec8e34e0092550a87ba4e64b54b40967f9ff0ee85e, 0x6ea96fa9beb5bf5f63d29ec4bb3a6ef5bd12f145ea2c43433231611d961ba323, 0xa642252eff91ec4903dd66989b2953f533360da67e975deabede548741f674d, 0xcf389ce80ab8c9922885ed4330c35b9f1ba73a242c321691ab526c8eee43500, 0x381f398c7efe2f890e7d1682e2a31250ab1d904d41a32771f0eef4a8715bba62, 0x29cb1a7d47cf6c82e999903b3c0374a6eba56285ab0c9a7e9a37121ef1231771, 0x21c882b35a9bec4530b4f0503c09e5bdcaa2f2af84c31e6644795fb1f5d57bec, 0x5ebf145a46c00acb132895951e940ad7a685c8c89cff41760277cfd437ecb139, 0x2ea9f1d7b6cdf5e353ed1b2e75a2d619a11a76f5271047c05ccf31099770b960, 0x7260f8913c527397c7344dff7704c2d43c506117dcb0d5e7e9ceea37454cb684, 0x27442979aa1bd1e7d46161906c70cac6837aa9e630084d33cf76a0a21f57e077, 0x19359451477326be8b6e9a2252fb32c67e4a9b022be5671651925401f8cbcc4c, 0x37c68442805c785a29960199ab270df3f4a2fe459a8b5396e30d99c0117d10fb, 0x3fd952281e4c0ffb7cad07ffe684f4b8f70d27f1f81732314f144641fee176aa, 0x6c2f687387a4b8c797e944cfd6216e6db841f04527a2aaa40f47ecba8705c55e, 0x1cb0c2e333c25273de21ac54206a389bbb76f8f4630a2436f12bfbd1040fc82f, 0x677aab3c038b05027ad7239bbf197b33f1467ef9784fb7f717a95b9487cb9a80, 0xb63f10dfededebf388043c4022cb9c0aefd0fe89472b302e29cff734d86adee, 0x5f780522067daac740b9a6e4077442479e8f44e34702f0b31b9d5f0946c61f70, 0x2f2f1f6c0357566341d378135765643e880d4bf26d7e998c2b5f5b14cf06252e, 0x2f575ca9cac2c2b1cb162793effab89d2527148bb60b9e016d7467e28fb89b9b, 0x4ca9aa2bf1b17d56ae8741715f5d59bf075a246c05fd9837ff028698863184e, 0x498944937ff10ab391931c0d5295394e0ec48b24602132894ae9eadb4116fd4b, 0x2ed81e8ccee8a8600b5dd581382ee15ed6ac483f949cb6bd6663804427b56f99, 0x38d7b761665129536c2598047bc6ec5a750b2ce9e0ef9728589f4dfa86863482, 0x6ab9437e1ce8ef3096aec5ce05af94d5e6e45175b21afadaa6292ebd32e26fde, 0x1a9c59e25b7bc3529a2cd2c5b09792247111477308d10381b44463ab4ff9bb2f, 0xdfa44d1a38c16970f0db16c650b32154f6b3f94c90329d1a57430bd9cde9e98, 0x5cf60dc786a01d44b104f021c5e6d177dbea211863101c0b6307a25e79f10ec5, 0x2bc24531f0b81ffbef86c901a93befbcf3481be09f313fb2bec13e02de9461f8, 0x3eaba1e2584cf99c28a8c2a8ed32e5f1a506c2a9a5db6aed9ed17d99e9e60536, 0x14a378907f616b31518b2cf4585c5aaa0df49d2a60cfdef340c8c77ed752616b, 0x6971aed5bbb0a7cdf91542d30b9883b341e627fd1d0dfa066c99acd3abb81ee8, 0xf072ba0030cc956a0c4a157a981799c7d2ed0672b4e902ca5fe2b7d9ee3fe67, 0x6a43453e9eeda9c665b4a5444ae42164896141dffce86eaab82cff93a87b95ed, 0x3059da19521aad6f15ac18137d46100d0e13a65b87745c683b12e8932bbfd975, 0x3bd5a3ee8d56b9cb77f8c713b86489070cab84fead9f98908c2440eee32b182a, 0x20bb171a314897696692cf122e7918951110625d29e0b0364a521d29a96675a8, 0x180def3a0daa223cb6922f8ae81d663ae668f0ee8ea4c3c8839862e89cdecda7, 0x796085ebdfbef64ec481909d47d506bbcbf8433eb48e27ac34a7aea35b992e3, 0x441fcecc132f1498bc96a3a0adbfdee6f1b187ac37afc3dfe8a8bc31a383c31e, 0x415abc343fd25ebc299d88996a830ce4b113525ce270071c1e32070ac294707e, 0x55b66ac9b25b668b17ca26b5f00daccf1441067b183f0cbc5458fa2bc71c235c, 0x55ca97620558b835a9a81052d86f75b1a7677fabb614c49e56b8b095490294f6, 0x6e81efdba99a04aedab4360b5eee1de6915765297cc9e9ca2ebfa2b1b4c63def, 0x2cd23850965edefc4a53f5fcd1510530fcb889a9d669c5ce7440e3e88cdaaebd, 0x467187b0f64dbe3a41a7061c2e7b774e3c5ef9056a16ea0aa473a7826a464405, 0x615834a8745b61787242d18aa919a7062096d4974e8a1b8d77a98daef5a8c203, 0x3482e0bd6d4da1902286042a96ea5d8143a840dec8acb6269870ea76eba7c41a, 0x17d794bf1ed52190ab75958d52db09c75f1456f329883a52a03d086571d739d9, 0x3c1579e2bb590844d052f3c4e657adcfb567d9f7904aac635c83198c7b537d4b, 0x68f95438856461ec6cf875c640a1f30a8818a84d2a5f256a264f069cd6d3ea52, 0x6a1f1a15b662299ced6c996d9de6bb098152f7a1c576e6b1d750fa490932b06f, 0x5bf4a436fb244b2228996078c840fbe2c0816f5b33a48bbd9af11cf750053552, 0x6e12dac1df7cd7caa32a5342978736d55bce13a13f8096e6165de852cab94ec7, 0x1a05b3f9bb21179d0c0036335743b59870b2cb4fee278b8eb918e7a5a36a9a66, 0x63d05012c55099fb0754e2cd1b2f6d262fb22859cc4bfb81386601a8d61bab6c, 0x570e497645e229160c8bd3e8d404d61cedb5f371b5ed3561e83b1177f7b0e05b, 0x4e223e28290425097f760073e009c0f929cac80e5d71f36fe304012f26641bfc, 0xf94ccd313f07d52b108ef4e1a862af27b92890952dbfd84302d8ff987ca2a9f, 0xeab2d2af400d4512735fe54185204608661d25dac178e6513d68345162a6abb, 0x33fc7350549544964d4adb6bbb4582888d4414b4d332e8b86054358f9548ec3f, 0x6ebaebfcdb775883a71226a8c451168e6437d3134b4cc99e412a678e50f3ca2c, 0x125d60f99594daea7800d6308622fca1730ebbf249033a81b8225d15ed9eea37, 0x254832d10e57a8013fc172e3b908f7abcaa3237b8510412a474ed369a1761879, 0x887cc73959e8bce70f096c5dd2e72b780082e7665322b3037008c4621dd2f5d, 0x14de36b5a27b5b236cee0ab3f608daf5b325164c818e6cb3e6f339fda1ceee56, 0x39a2a2a7281599f0d2ae00a08915baf95d9a13009d099683d02042f4b141d81c, 0x2d9ec0f240a667c71de4c38a6944dfaa8615bb5f0d1e995764cc8d7a58635609, 0x415082247c9bd3ff58ff443d0c390647a498ed9f192d1adb175bf2fa19efe963, 0xc194c6700d9b314ba60af198686505e36bc72a67286e3728d726d92faae561b, 0x123d1a220b61cd9381d45e67458022a3ed889cd10496f5c50a7057e6718f9135, 0x3709a4728520a8f5c36d2bd277db38c48aa3b7974293a4e3e41e2fc6bffcf7af, 0x1b14fc9d89f9dbceb91147f874b784ed7db80a0d009b558b4771b3dda7a78c57, 0x433572087ada8ad8edcfd5dea54402900d440f9caa0af365c20c319d8d79d234, 0x6ef5fc78be44a96512c47ec50e76366cd1618d80967ece126eb22b2068a48a22, 0x6891acd76ed249401ac96dc7b395b774540cb0f225061f59beac6b295bafee0, 0xb15076753e821cd42f1c5413c1629bdde768e505eb96117e238ada9544c3dbd, 0x50b468d9be55a097f47640fec3fd87b90dfbcf8301bfb1fdb85a6213e7cfddb5, 0x728c372bd76f7b7b2709f954c7f9371ed06d00d5271185bae2e5bbf3d8f96a30, 0x4072cbd64b9b0ddea23d2403e1a835fcae597dcef0a105c6f490052469b3275d, 0x1818852e69134888122e1cc16244d3392b957cf081c8219f8aa5da8354323e0f, 0x4318b2dcad62a12969410fda67d1460865b6852b8c414e6affb8d0be16a81f7d, 0x17cca524790f1172b8c37ee7419c0331367f10a5fe775495f4d2e5b4f1d9b425, 0x3b4610a3506919353cdf76fd841ae186e73a0b5ca2a964d57a8f807de8711613, 0xc567d431102b04b2b6cf9b98ff45370a32ad01ee88f4d1c3471cafa78a578f6, 0x1483a7bbc0efaf68f1b6c37b4dfcf30e7b3d43d492d519dad73ef905e208ce64, 0xb0b7f083014d2a2cde7ab05f18ca3de5577c63ca74f0efb6d2ac110080b84c3, 0x5c32ec3b0c3d09a4c8967326aa106094fe1ff01a57e83657113362c8e81f6672, 0x41b370ac0e625560d23d8cc4f7a679a81f469696c1632bdb9ed87613ba764d65, 0x103fd7c7dccd159e01712f4dceb4aef122b2cd2ac647a51ab1a96d96f71149f7, 0x275e5cc17f27920e4701af2fc9c3077ff7b30544de24b5594f4e3adb80185d61, 0x54207e6158b147eeead2e9967200b32f7bd1ab4fd3cd6d5140c5a0d9e58b58ee, 0x73595646a8f1d4bd02d0e9774ab7b18f50dbc073227778623fa44e0f65d6518f, 0x27028ea1aff80f2a8192c76c9dc86edfb9c90f200914a95e764dee03b8697b2a, 0x5839544282dad6f0d304fedf3e1d316c363c5321372fef89a9bb2f04c52490b0, 0x17fcdccc9b19ffb53d4d7c4636bac2135eeb3443c8628f4f181435166cb53b2e, 0x6cee9fdbabd20732fc0cc3da6077bbe9c811e4637021dde0bff445fee45e9404, 0x63b4184e927c0f7ccb34381481f898e8a10a28bd633a36f130e0811db7a4b212, 0x617878d9f41cb1ccd664949d344312a50418dda1078d6d3987c71dbb4c422538, 0x70e6f22859595c70bdc417f8a95085ffb6b6c9028aaca1d567baf040cb9f59de, 0x3a339ea5058dadf74f7dc35f8e6ff860080cbd0e62325557140ee07c70af9ad4, 0x2b79c1f5b60c4f7a020d247fb946068cc9041259b6f9b152653cb0ccd975fcf7, 0x15158ea5f00e371d5cb6d0c4bbb99b80c3fcb9b000022b3d2a6763e09db7e9a8, 0x3cb65f6b4575c3e3499651b1af0e39346c03c8aa50d71481771d9de269317f52, 0x1474548acdd3a7652496efdaa1d614f0473817010fde1556e210b291c2fbb0bd, 0x53a792abdf190431f751097a43fbc56628d13118dbbfdae33631cb56fd454aed, 0x3edc29246491ddb13348631dc648b8f519ac0ee80ac6bdba4519156584cef1bf, 0x3641711235e04b7103cba605bf6ecd72a4268ad0960b2356093d47de66a5a2f2, 0x3eb99c07f468440615c7c776fa8c97655f931c19c6883c676629c7e2ff07bfaa, 0x50a3d461de0d4a4c68594133b2955477c67e4a188c69523e8c1a984ad91770b2, 0x31e66304b260f1c75bd07f9399d4a37a05325fb18887f6b7734334c739aa7aa5, 0x62e519b0b78cf6f42bbd12563629d7fe0321a62b6b12f7654049b84e329dcaaa, 0x5c43fe21e0bb78d7dca2a6ee448ab673361ee79b4b92e6b13ed5e1ce85d33e9d, 0x4d841a8700c5f21da5a484ac046371883b8a4586e2e5c206fbb8befa3065111b, 0x993d5bf5995212c4ddee4c6864965c283a066831a8173aa4da06ada99e249ba, 0x64be03c6dc94f76f534084e4d6fb050d60a0ee821aa740217ccddced9fd0a201, 0x3d53d5c01e8114e47ecc53c7d4a5a0cdb24b6c31c0534699b320717e61469b81, 0x3c50c1d9161710aa34831ee89bde9e266885a3ef0eb6dd42262e4700f64ec5eb, 0x24d6da8566ca67d13d13e6f53214efdeab8226a3542ccbed7d68ba6e1dcb0c62, 0x11b96ec28e3b26aa8d38ec8b6816aaa115f52fdacd8f66d4739cb5bd01abab2a, 0x52a4a5f955036155592ddcb4ba1d17a02c429272f7a6de57a4f10c3f178ef223, 0x26a064ebf2bea349ef5a62e09541022095dab24dbc984a23005b5a071d80beab, 0x4f55ad07405cb14f073a0859140e129ea0d2b6071a4c3683d656e55265306341, 0x697a3a8035f9530f648de7e28d51d53a4d316fa03661b06b5df9fd4b78ec8580, 0x353885a2b0f588bfa6255ff324e43eaaa8ff95d7e75cfae8226a35a337d3a6bf, 0x70de67d1a79741bae95c9799cc008361c5beb67a39e31d47f9d80da87ecdbbb, 0x5528c532f358f42341913fb64bda5c3227d4157d3aca7cf74a033d35b45078b7, 0x760e5c4b7fcacbeb3617bd2c57f6af3e739952f073a80e6b392e50c28480bde, 0xdc6aecab3bbdf845429dd089721ea85fc4c0618a4f903fdd82f3acde9d0f6f0, 0x349581eeb7357e8177429be1d6f37ab0be8cbd3eb1e82b903a642eac16cdefd9, 0x542a8253c6e7dc2ecd938d5bcf709fe599f731d47098461c2a09afe343d0ffd8, 0x356aab4bf8919ab09a20eec7b37329535205849a5f22a45712df20210e2e9255, 0x87bcdd73de4cc68ca7c38ff989c7e36686815ba3fa3fb21cb81abbe9a9e27f0, 0x3a29617adac8ee77a10615bf4b1e67f5ba1c0557bcf14659d7e061e63dc7d63, 0x73d52bc3cc7aa735b1892643e8602fa060d054b6a2d2ad4f71d86979b4803da7, 0x2cb9dc3da0bf07b44b5adcdc1992e4c0f45db9931424f574799640237873c037, 0x48a64262193250d4454d4d937e56e102d74435a05f77fa130585c26ba2d68ccf, 0x4fe47b555b8fb24d7b940b0b259e12e279334b3241557322efa0cf94909b515f, 0x91ef265991e962adb93c68e7287dddb45f9297f2d7ac33da8cd80129dc05408, 0x5ad607c6b6a2190969548a0e06c9f3566d77d8e3259f16a221e9ce8222172a61, 0x4953251fbfa145f8e11049af8d2d131d18866a708545eb5c7445fa5d88f9fa4c, 0xf0296d31d0726f029a4086c9adf600e9502b0b14bb69d95fef41faac840a45, 0x68fc9da8f5c2a909d03227e4d6fcd52cb06225006afd9a01b5f4344b1fc21bc, 0x47627be95241e6e54760a14b7e4a1e9433cdef1aaef744b69f5baa5a155cee97, 0x3332da5be588f78489f3bda44a8a5573d8083edd98d6f8ae83f9370a9e40604c, 0x50f4bfd2bfee20ef9b575c6d43d17d923954ac3e4ae67d3088d3d8871304a38d, 0xee3eee56a2d9daa52d5299c996ef06ddbf72da22e60ce7dd986f2bfb32fbf50, 0x1c9b9f30d208fa7d7b06e8af575be99d6ffac68c4a5be0541fd4e48360651534, 0x28287b0741b3c6fb3c6ded9587401e279892596286478f4f256472750d690b37, 0x4da71007999a03fb8da8ee813f024d45c70069bc2735da19e9f54465b5561911, 0x1734adb04312dea81d617e2672cb00ca49fd9165156b380f3ec98a1fe5f6d126, 0x51d6930c6422390cbc8869a7097f0faafed09feefe96cee8fb9767d9e8945ae7, 0x67f39ce06bebb81d3656024c49e21da3e5c5197f781a3fd00f194ede615eb314, 0x1e32ca8b34202917dbae11c7765a6282479cb134445bc94022bf50076ee4fc77, 0x49a53309d86976258f07f93e6dea63bd9296ff772963708287f2aa9a6d1c0db3, 0x3c9ed821bd279979df3374316748278d319afc7c5a1e21952029b61e03d71e10, 0x5eaaa020136386040d8c4e174e17422c3a376f530f8c973125f79a22142549c3, 0x56709244100d980e417c24fd9fb15052751c8ecb0ce13ccb567a01f1a0900f8a, 0x3fb2d82e5ca96e0854904d309805c09590edf1229cadfd55c82812b547c09a4a, 0x3774facd298a85785416464d3d2f80fcd3bc892ba0f5a97b7ecd85fcaae4faf9, 0x182931e3adfacfd195fb4a6be807acf08596f03b930bbfb642790fdae040b34d, 0x337d7539786bd91aaa4bda84718a7afca7e06d59bb1d013f2c2cfa0687640694, 0x4f056973e2f7d6ecd3e72d767b6bfda91e19914d3bdadfa6f8c7b7ada9f397c8, 0x5a7a851a7dec74caa9b2d997661533eaf66f5cad9607fd77f163389789216cf2, 0x5f77f3720acf5f927c283bd29a0ff4bcc2011905d206c36555d7fa345536574b, 0x3497ae946e3efd5f9de2761ead8333a615fdaf1af809a83548968495c666f661, 0x670194d7d77ac7633064a0c23cc9752a51dcf31c51f8e9ff90f112e33e7e6405, 0x2c961a64ae632bdb8c497e1f2802393ceb10cdf6c31675618a844d20306722c3, 0x566ba1103c5a64179b80efc84138f46b12955751f4676eaa5ecf2a8771825d6a, 0x3c56ef1599e7303ab1cc9a30b799524fe9752f791f5228d844ac8d1e93820ae3, 0x31e117bbc5cc6e89af84cf6f4528d05830c6d8da2b4511e2eff88e1f22020c51, 0x31985d43e9ecdd3f977f1d78aa64095dee89800a5466a2554445164b6a9138eb, 0x3d4f0bdc5a53c25981d868d3f9b80eb492398505d4fd1a222fa41f7a8fc77d32, 0x3dfbfb75245b02c98962e715028738e60c350c145aa5595e29ce08fce4211d9d, 0x477cecce5007d404b0a858a1b371d1f3e59a1667553748aa478c4b3984828344, 0x6111f323fbc97780e920a3551e4f8055eeaa7b7ee7cef96cca38eafc6c351018, 0x1c1f5807416497dddea2395850f2cca4496cad7431886527b67b2c4dc0f2ffaf, 0x2b4bbead19755f893dbd8b7e223c5996cebbb23f467cce64c2f362f17a56a85, 0x10c65015f735419f89db58f27a02c761dca0150719dd0bb6c9fa471701a406c3, 0x1cf2ead5132ace79c31d6690f5221421c0029fd15e32017c6050bc1cf2f06e92, 0x550d959fb10e041bee45fff9320295a05b5b90cbe61cba2df90d4e17351536ea, 0x59204fd6b601e4eb4761053f77859a6e3f3f40fffed89c62f084ed980c3bd0a5, 0x318f67a26be7a3aba80f32fbcd06c743132645ee1bf8c2e3267975b5e792b57d, 0x25de1301e02c96669335a5345ce0973fd65646243fbad44667819f34ed48412c, 0x368197442cea8b0b2443f6a4fd442ba5ea00bfe1b615ae86c4107dc577be1a06, 0x29aa757a67c8292907057f2446e2f256d17961c84f20349e2a95f889e46d1723, 0x65744553c1a4229f1c3ecf41a88b8e3d753758588661579221b44e1a56df6b13, 0x58b18675025a4d264c92fa1224ce360d369601b9e780b9d10d0d7b8a300c29b4, 0x5549c87b311c8f6c116c3c307a6d2c1e556a1566379118b5eefbe422208f90ec, 0x25b2c6bf16ab2c231e0ef7b2944f2afa2418b5fcb6ed0454c34c97e5092e8738, 0xdd48a8875d4f18a86f5d9c57f17f9c8a8cc3e23e49e75607ea0025fcce7d022, 0x2b2ca4709ebf12fa6a4ad5df097c41f3dccb8e803f18d44e430c472ad284808b, 0x658c46a289af07fbb5aa6bcd61ec8b5680212adfe6c380fbd53f8030777d71c8, 0x59a7d085ad8a5317438591615c9374c156a9317c6b196a13ab01455db75a2682, 0x728a2ab5f2f5459fd1025042d862bb7154064cdd396ac5272194be68440f0311, 0x2561123cf4eb30052fb43543f5f13fbe1cb86750ec157eac7308db68d74b457a, 0x16221b98032bbd848f505f02b4e949463f0f5f4b0cb60671299cc38755fe6661, 0x24ccc271f6e64372aa5fbb79b5686d8f78b5dcc04b4c1f2fdcbb0df36eb3bb70, 0x719aea572b376196d2705c5b976912c272f0ee7438d8c179cf78fdbb1ff66c8c, 0x1b466f6229ee540aa2ff723a5af951acc335576d7dbdca6b92716b5d90dbece3, 0x6729fc2f9f8ecab9778192b76384044eecd504daf73bc60d42537914a9173fe3, 0x2f58ec02adbff7b0a59a814a01bbec1f541eed149575a7e8a4700cad8b8fcd1a, 0x1e493757901da17b747796707a45d2144fabdf4a558ebd36ebf5e2eddd10845c, 0x6770ca36a844cbc97999f7927cd2bc401bf20de3ef73407014b9f726dac8f0c2, 0x65bea32211adb11e2c7276c1242d3d6e5a2201090f60aa2b6c72509cc8e4b188, 0x21828def49f7635672f154db9cd7cf7d424a591352bcb37dd337bae52000eb6a, 0x4e6a45c9baba40ed9ef08626f728f0870bf612492cc9d9f6db533e50255cf021, 0x3de0d1036f4e66d30a18848dedabf9389fd78b95f889dc45a9055e9259d31bbf, 0x39c2b069cc26cb81beace3ea28d8c1da944dc22d0f4722b57d5ea58cb4dd24d6, 0x1d5ae9ab67d49a0c284f39972f3e2bc39e64cabe5a712a2d35734f053ccb688c, 0x668601d82ee968a9afcf0c83629f72196e6119416bedfa74f7bfb9718b20b7e1, 0x356f92ea071aedf0ee1a4d8e6ca1ce13aaf428146673abaf831f85995ea21ca9, 0x5ae1ebba8af5e3f0e5972bed5618cedb8aca6cccf9955c1477bfeefdc158cdfd, 0x1c263b5d292894f3502789bf3d662ff0842b9475ca628ad62cbff88e7854884a, 0x4b55662999c44937d96ee3eac3da79e10b8356ff5ecbfe6b3fa6a9410e3f2e0d, 0x6cc5ff4a8a2a36c9c11d6da034317c65368d2500afee5fbcde845ad9dffbd981, 0x4348ae8abd9dcac6654a123697b350d8d816629d2ff782fc9d6762c84e5ce255, 0x112436d5c25cec83291ab0edd2b3a1a3604eabd5197801e77bd79bf549b19e29, 0x4e2d9ae881804a3c814e8956f506c82a30f2c16cc9c47d5b8f020edc01674dd7, 0x5937aec1fc9a765ebbb59c71a46a1c5ab1febb2ac0534c8b68fd3931da1f3da0, 0x2f4bc3005b4f8b8013ccf7000fef44fdb21b14249b692ba3b5964372b42995aa, 0x67f40dc552b3431017c1d537ffc4c2ff2ef434c9e8bf27a63a7a4c9dae672843, 0x1baa6c25d847723c35983db9478ad5b4ff8465ca7585f83b092dff2b21f9010a, 0x7334034275a882597d795908136fab7788d375223b1d8f4256d49f0a36bf6b2d, 0x32ab226157a6f906bb12963a09ffc892959e5881ebd608a3b4495b7b38338895, 0x2628440489d2da8fb296197ede7f516ad389996cabdf2ba601f262d81713748f, 0x6f6c6efa3d242d58ccbbbf31e2a22366593bbe7cdc6a07888ca40720b09b9b7b, 0x6449ff948faa38ef2dedde461371ee1441b4258be7b7b8480094ad9462ab8c53, 0x4f83753ee3e14479440bcd1b30a64ffe7f0c4886a442116f78a2dd5eddb5ee76, 0x2aa053da8fc81e2a141df7de404c08a4d3851be060283bee02f855ead9fb4298, 0x4bd6f19e288149ded790204e6a0ff013a0ac8d3cb5b1ce1b904aa9498c8ae45f, 0x1e98dbed4bc2d726090d13f0718895043bcb06986e9bba8d19a849f7ca644bbd, 0x596d1a0ceef18e3c76634eea318a06a3f50f3a35a1e7a2b7dd9b389dea1a9fbc, 0x2645579a7803e00c6cc710932d8d0f448a6fb3884bd67a18b967228ec631a318, 0x32cfc763343387af4d10f341a97b20754214a59ade40b502b752a61033f2ab, 0x114e4e09267b651bdbe1d30dfb30289cfd2c229bc4ea819be60b2825ca72f5a7, 0x6624b1008198401f801f984afbf7cee7353b6d4ed482acb18f029e901dda53b5, 0x37969bf160089ab8826c4f62aa85d5d833f9a0d42a33931778067553cb6df326, 0x57ffa328581819d2ba6a01f6737c0180e477f57d652e9ec3155edf9fbd0c8591, 0x2137e010efbf25576c6310632d644c153b9a9c23a54232432491e6cab16bd686, 0x26ae260aacb54a19e38c45b3614b1ad69fdaf11d9d0ee9420a672f10aff13752, 0xcc27fea4bd5002278948abe95bd1c00bd5a9e7be747ab8db8954a8565defa4b, 0x1588cbb84590108f278d75b7bb767ace5ded55de48abae7a93e6721266ba48fc, 0x26ed05464fe871d462e90add508500ceada52197f17d2770b229fe76fdb0c807, 0x160c986d973962a238471fb2db31d0c7d4abb2364147b487fb1f5d399c2cdd7a, 0x7127e13a76b94d0609d346b32ab2779ecb86c5876feb0878426b10d523ef8cf6, 0x1c3746ce94db8dcf69a8528bcd1ceb3fa1bab534660923232c3ec3488405e590, 0x5359651d2d35ed5d619b79c4a3b922346b90f7d62a12dbb85613c2ce5d5c40fe, 0x6c3d3bf50d23193af745d603cca9d129ea49c2666ad82121c1cb0545bee66070, 0x51101923f5a435637176fab1953164d7042e21185cbf299ea68f448e660149a0, 0x675256f7346e936d4460c9c4c345254c7c9e4b5e5dbd66edf0d664b122b2df20, 0x64784f414585467edc7dbd73462e530378c0aea2cccb7ac8f4376fc2ceceddc1, 0x2dd9d2fa6a5a60c31a435141daa9b3d5af0b35b9ccdbbb7c19522dd37af4b350, 0x20174f7859001ee5a04fb24ec126fe49c543ed10569edb009f96ece2c714f19f, 0x28e063084d9b5d69240874b3bab13c5b29e5948c318f4d8dc6f78fd4c4e98995, 0x507b2b0c6e5f0ca27e6e97a2c1a5ee468a9f2b1d509fd116b5e79b4c4634c790, 0x3a37a7c1eec8d7daab7f07a8ca338555b70ce9cff709fe420f245d2846251abe, 0x1d7246658bb0cc564a9db3c9f17f2db46e5b66a7815333aba30aebc6779a1a8, 0x56bd666254400e8570aedb7b04c5f3d07436efb823a091be593ac8c43ffec8f7, 0x1c8e56c1d701375a182db87b77c72f636cf09b87d35d54c57b25038d0d308a66, 0x60dbcb91e91774bca45c7bef457a30b2692267bd75350909de71926153c419bd, 0x1e7c524d7a480a4d6550237544ab22b4f24e82843464f7143bc9d4198b5a5866, 0x1d3e09e6d96f3d57136bbde8fcde41d1470481a18d50ef0286d85095db570b70, 0x3a7ff2da7a10fa0a037ef0229bb01de18c8cee5b95c480cb297a57496cbf73b9, 0x6bfebf73663975a6df8299adc747bd1a59e22546eb9ae37a4a83080a182e230a, 0x62c0b14ab36033405622acbdb8534b848a14e1e44f0c394f70b5f5e9256f5b76, 0xb365acddf908af8fcbabf9b0c485b962dbf4a62c84e629f0ff4f6a11270a4, 0x2e94c6e50bf1d57fc3b4b5ccab1e3731cb4d2a1be198559bf57864653c120d32, 0x4522f91db9641a4393e7fc829087edfa047b267c62d63ef31af0d45a00b83409, 0x538cafb9d4108f367149db4be3a66d5cb358689aa8194e575a451b2d8e110b2b, 0x41ef1a26eafdc6ae618ced5d7b1de4da805eb38fa2bc1f80a45f411ab7141bb0, 0x33e5f6a563e9c6f0821d8a70444f4fd170bb0017cdfce5b15d33e656150d53da, 0x4a18a684d6212c606751a4f34c96fbeafbf9fa9988b86e6d69c98e4db9b58e59, 0x14a310719f1d290414caa15361420d510dcf596443f08211c314442b8f24881a, 0x1056f3bdeb4137d04c4dd8d2f7809748645fcf0aa98da797a7b2b7df74484a85, 0x227f0d9a0ece72f69f3f7336ada2c3fed1baf28e5fdd9e979372eb85eec0158e, 0x752309273d9df6d7f38ba29a1c182de0a52d1df7f9c6077735b7226f7ab8f3f, 0x559836e06e07fed72148828ef7e89b57ae7e564d401668b1641effef1bfb15d9, 0x3ff79689fb6d0f0043050bca2acd55c40a9565a18d0201ba0ba6ebd876814e4b, 0x424af25152b011368f68b0dc8fd7325a05c400cc4de2979a4ecafb8616757591, 0x166126a103d10db6392265465ce181dbcb2bd6f7aff1c1c8f53ded1518c6fbad, 0x4234d1138e6db5fbac72437239ce166a926f4e15c09353f9564a7a7d74cb5263, 0x214618d60ea418d7124d54ae859dd9f339c7322783b3b370f4116c1464101fe6, 0x3b6c56d380f650f4c48fc30b2b2a82711412b7d0a933da237c8999332832c0b9, 0x575a2009f51545b29cf2b1d245dfc66152cb7413086449ea40136ee579d1c6dc, 0x1262806c056971e193c8348d8844ab4b061e3fb522924210520028650a4a72d, 0x667d7f3df273674ab81bcf690b1af1c497339aad3317f3af4d08d1cb00a34d65, 0x4a3f06a383992ea5899ed8920630bb0eb8dfb6300493e92ad3aa318155abc83, 0x1d144236baf7e3a1b5c1cf5bbd33e2e0fd45de463dafc1abc6204f9744d64b4f, 0x1fff83128c8177d19661a0e424f86d8abd3c1a12c244b963d709e066b8155d4f, 0x6914f51399ad684d6baecbd257f85d16302de41a7923006e08f1b389adcc23a1, 0x3f0879b4575bf852253524dca51bc9638510b0414a9742ffe50676bb37e14fbb, 0x58839a0ea1232415c426f96c6f8f6c9e88833af6ab59b10feb4bbbf0acc2ad6b, 0x511b45c918136837dfe547dca78b63368b43bddc3a7e66f6b7cb8a728444f410, 0xfc7a5c7847024139f518bcfa17e74855a816a2d2c68dc5b288e7c6c360d10cc, 0x36730edb1b1b05622b7d7500533624bfd8d66cab49bc8ab9d45b0369c2eed7f9, 0x34b4b439db170ac41334437ba6ca25cfc6a01e4747e7c51311ffab479ad38142, 0x64d69ed18fc64cef54beb00d88a66f92f99e87bce19a0aa54329f2a9940a3d62, 0x50c6f8a2ab2b8a8e5ec04609a0567b5043c7fa2f4ab5b799dfe3840cbeb5af67, 0x347e23a7b2804cd1e79c65760d98083321621577515bc399c1900e80fd0e3ea6, 0x38f75a380a378f0eb6fb51959d243ee53ba3e8564dfd605b05042932603e96db, 0x6ae5b53d7cccbf1de412f1bb16fbe2d2f3c05c543dbb20083f9f2e5fad41bcaa, 0x6ecfbc5c3bfe95366b57f5c6227a29e7ccaa793d5d3afec1c20620f2081bdaab, 0x3a305c5614b76daac4c201fe06ef02e5e1c91bbe842a175c5d3818d490d448a5, 0x260b10a021223435775dc4616cfd5ae6f670ed2595cc2367c84b7cd09d4308c3, 0xd025317707ac7b7558f99f2e7a0120ae3e8cd1964bd0f7e6c80b7e5a7596635, 0x20561f9ef9c04b5421a54c7355c3b0898e81397e4acb20a1f83c0d63a6b734b1, 0x6cdb2d6a2c2fdb63d7cfb695f9e002455b14bbcbc7f1548d0fda147d8517a349, 0x2d10674b09548d58a149e264192a3ba3f3180853d2e19d04cd6bbf25e1120642, 0x237496a187c1e62c2189d3a2ad81ecd413f70bdd4547fbf4ea0379431d8b086a, 0x666518c2dfd1e9ca4ffc919431a4c21033acee6b1bb254bc5c3764f558cb174d, 0x3204fc190e2ed41cd22a162de78dd126d62fa48607f699e3ca10ef9ade384f43, 0x482b5fe1426037a7bd6e5167bea774c2c7e7de25bdd6e5c4c348044a1162b17e, 0x2df9badfed71de3f5c6702b2fb2c98ebc593b82a42e6c68169cc212a86bbd95b, 0x789f0dec6d9daff627d6c428fe5a096396613cbe2d08a005fdeaf82c36391e8, 0x4d51e002d0c8bcb9c48aae3da8806b9b6d05bbea49a852b294aab18e0f9064db, 0x18ec3e63c93adfb8304362c793f97d6b4599198dc3e1dc6413013d5e19cb4047, 0x866adaa03801444c271e95ec02fc4fb276e855d23c69c6a89b58797857eb6d5, 0x1a925036d80c5952373ff6bb586a4414ef02a40bc5dc53bfb3bd294698aaa9ce, 0x4e1799d64333f70e6eee1871936b3ee68d832196bb5ad5ecebd5dac2682a4303, 0x9f694783cc247dec1de27d391e8cfa7028f9150ffad2a2aba0f9c1285fa61c6, 0x41404258d82a6de854ac93d42cc3017e6ba3d80dedc6a6cb35d8a5bc98eed63e, 0x1cd8323cc4b8c6d5a7582adab9673d98665580c1274ae03b6dd118fd842ca64b, 0x4efe3f3f93ea2ee39fdb577949d71ea9f7d70a789fd238e0ae4622a3f3bb5154, 0x25df0e6b00b0a78c6949cbdbea20c098c49db64226c253ba22af48c5aeb3f08, 0x6a2054bd36e7110f078b947f6f42435766dfa2f418e8c529094a9fad3b0f905b, 0xb40e2a756c5ab13a61f0bcfe64d5791f3b17d7b42382a7a108384cd7876b227, 0x6e7ed3106d5932dd0c23accdc2918c3f4d70f1218f2915e2170ab0ec961f3938, 0x3b4717768467fc6d0c646d39a9397d88535bdb5547a143fdbb4f7075c7b8e1d1, 0x62cc6b62874e721590a010800d66aff0518acdc29f0058512f9d401b950f3f5e, 0x29beb51301071eeb6e0043e8a522d5ec5a8beb313b8cbfae8f80f5aacd6c5886, 0x30d908ea2d95579b98667c592803d1de40d679e45b09ea71079be84dfc6f0b9d, 0x3796a022bb602cc40113af391bab26d11e6906f13940d0d47cea99df4825d63f, 0xee2bc59667a120b443538debb701fbcbd3c57b7be726050e26acee4c37ff779, 0x66edf267571c6871c45f3f97dd761929722436587f895d41a874ef61d6b009d0, 0x5af99ee6f1bc0e75134eaaebe6f7aa842f39417cf19ee79a17b1e4b6efd11007, 0x6e3d12b4e609c80c8acdfcea9b41e6304b3c27f8a431796306c9a91eaa0ddb98, 0x586df887c0d3147eeee1f2d663a2fe84f23f9561945b27e58ab64eb5356a90c3, 0x392bd96f2b9a8080ed007478feb4c1973e49b57708bb9d3cf98221849cb490b8, 0x3fbe063915150cacee49ed2aa76b9476d8136ad3ebb55aca7d5ca668e80186c6, 0x4df9d5270ce1892120643a9230c28adba4a5c46924db6b7be344f5d4eb087a35, 0x6f575ac9b296afed2f259f8a060ee472cba99f86c1368b494d1ce995c9af3ed8, 0x183cfb19d953d41bb176e023d1dfa1fb6a10cb559aabd6806282b380696cfd9, 0x37f9365da17b2e99f1c76c0b7016b80466f46c9b30325a5196e20e8b353a619c, 0x2ccf3578a22497607cc19d41846a9e6850cce5f0e85a3c048c6af71d1fa28171, 0x3a326c37c3b546c17eef6e8ebbafa0cc8dcea85897d32b40f3c64397c80eb08a, 0x5543524835ccfdc5c891d8f911ad15e734d6a20ee10b52ffe9f4571a347f4d70, 0x3ae4a0508105433ccd05a5ab499928b9a19ae77b57d9990d481798005728fc1a, 0x3675c68844f51452d1f1f3dd362c075780df27bf9eba96332a5ab7bbc31a942d, 0x257364015b3d7cea769cb0979348d5b605605b469a7d06544d21ec9b629d5689, 0x465b82d4e05afd92846d3c866cff23e561ff04395bb7729ff6802884917a7277, 0x5b6b46a6017a76c01be88d48f550e0a4b70ad8792aadeb48edb392fae5260a1f, 0xef379b14cf5440ca61b2cfcd2fb6b9fd74f08393ddc2b19ac7a250737058204, 0x1b5496b4f0b185668b9959ee4e8f560eba71c32cf3e34d185c9702972494e568, 0x1b34564d5aeeff08e193a710dc9843135c8392c28b3eba57c57ab6e9e84d893f, 0x1a85e9413f090c0a2fdf55e371d04d25fa8a1c2daaf8d46521fa07f5f5f692b2, 0x4661566bdaa6cd68bfc44bce4849080e5accab5fd8453d4ed3b6a9fff808479c, 0x1fe0c77a5ceaa4cc5e6fdb84094547ebcd6f77fdf3d805a6580f6c9df1283a0d, 0x71d94fd3375ae41e9dd49d9e9f9ab0dc02e9ce7f9aec94862d5fd6b7f321560d, 0x54fd47847ed897cfd6a660ab7ee0f4bcf7b979bc67eb7df1fae5db3bcda94b35, 0x3826e39d4212779d1c2f7ad1981436c742c488da16d7193af4dc876cf6069bbd, 0x332e3c15006b6b34c3149f41cec938c59656feeaeeca13c285471bcdaadc7f45, 0x5a0c476d7a08addad903ffc869c7998fceca754c06ea2a137719876b335d229f, 0x28169d5ca2007b949f4fb6b082d35cecba8b958373b2c727d371cc6d5a2ace57, 0x2e56e1ec0d28110f1b289d74f8360618e5d2476cf10b6560f00268917facd475, 0x589002369d9f58a5bc6c7da8e81dd9360571d981a93b0d316c9193c044aff85b, 0x32796134e9015c1270dd30f4c665bc4d106a1d2b700573f6207865fa33362401, 0x4651f5dacb0f460236f7b168a481798fd7116e6dec6512adc56e9c72d4ca39b6, 0x53e11a9224397ae750ab9e8648dee2eede273312babd6ad489d7566ca7d7648b, 0x17d39e266701505289901da8a6fc1205ee8d611cf34ee8dce4bd34f2a1be1e63, 0x6d581039b94f0a6c317c8a8f98c2d16b391f14b33fb077bbbcea2b0065ff3844, 0x1b52dc8edd74e60461487f237d08b6e2817012e0802097047144534fe59c5125, 0x12cf5d5b862c3d787ba93298ec561df4692fd91efac61b976509ab012722104f, 0x1008723ccb00b92abfb3494a281223862422d4bee8ec5de2c8cca3e0a14c6898, 0x1a41652dd979cb3eb992bfafefcd22d4f71ac33d7dcc4b55ba16e4c98db9b566, 0x7144a1d2bc555685f51f05dde0a9ef1e78f857bc684ddecd2bf08b81cf4556ee, 0x23c7af4c28f54513e329a557193efc0e0fbef2084d4ad981eb170661a894e043, 0x673946e3d597d5ea832f75c371496325240ff3c81157bbad30e62cb3bbc57817, 0x604fae056a2c889b33cc5b44172a2ae3e26f9582fb49933cb6d270193726b9d7, 0x14f00326d36c6745204a4f3bec49055801afc0a5d6d5352f4701bd836749dfec, 0xde3027fb52ab85e3325b5ffc7a3cf26736265e3f64515b0fe99c889f468ff16, 0x6a97a9de929065b41f9c1b2667d5e64d36e9f5680ce4f1ca4517e0814e87fd27, 0x2a89bac6d5644b4a22634db8d0945315565fc7672fd0a5577f0b29a172065a74, 0x6881884949912a4fe9882517598fbd6ca20b754d95d79bf2e0bb604d22251c25, 0x21a42657a58b659671660cc6a6edc67a240704137cdcc2ed4c28d9c276c5b323, 0x6a4dae822e9fd496e5d195421f0b1058f558be6c5fe7869f1300554c46a72c75, 0x669534660d1b4a806e650b37b1ddbef8c49c755e654968e2bbcf4624d2a9e3ae, 0xd35bdd4d9a187ae48f97d06a5f8f90822af30fdaa909e94bd02a97aa98f955e, 0x2b8fad8297871efa5babaa307535ab6a5520b028a23bea45f1d06048319b4464, 0x57d3d379391d65709b68d4636fbf854da2aba5253222b6058480555dea525684, 0x29b2e5ecc15653d5c11b2b9c0437afcd0f3571d77a6ece6c425f7dc9d01b7e84, 0x1b93fc1d1df88177e8d8801888da317fcc570db3fe278c62305b21e8be57b6fa, 0x8c9b2b3d00ae4086a212dded0d3aa9ab569fa77eacf8a20a3e433503bc2c5fb, 0x4242d80cd0b26019febb729066e566e26d24c34277f929f3fac69ff1e1dd08f7, 0xd58f34afb564cd3cb71763f48e1ab7ddbf226b972622f2a15fdbcfbdac2c981, 0x4ad76f35be463a87812117a9204a31eda423e073e3bc1a5c1ab11415c8595db, 0x5cd014024dc61aafcefd0e90d586fc4d05ebb6ede24f710bfcf48dd9c240ac08, 0x43ca90330a344abeba421557186ad6240c755d2d925f8141684ee19535fa433a, 0x42b5e4c2c1e9b7abd5d00d71ca6a67f10813411a6bf290648f98be23194e6ce, 0x13d133bd7cc845e8dbd9073ff3e8aec1f5aa55ae697a104457ce076aada83b7f, 0xb36f2392d418c2ddbadf1cdd950811b56c87fb0dd136a40cdcaad005a64d04a, 0x584c8f5cde2059c715f6e6ae84a8fe792dc01e415c9af66121c65d0e0154693, 0x7322f232e0513eb9acc5d1ff8905e7556b37806c9aa2f5cc48b58f56fee88bde, 0x86844ec7a7c5fc6fcdc3c0a602732196e08a66cbf0e4ff18aee4237de9b29cd, 0x5a9a3fc7598c207e7ebc4f9749fbff9cd5ad54f7631b45e23739161f7336a6fa, 0x65bf2543c4eee0a3529084b7f4354a1c7670776da60ab6868c70f27cb1184031, 0x417eefa819e37db9b75cc0167d58c6ddff8707162f6075e0ac7407ff42ede7e1, 0x539e44295c01b30f63478beed682ed4c8fbca3011815770e63243eceb0888616, 0x483b8c7167c80a7e83cf5198393dbead68fb2b4e5c7508b14a4ec210927d643c, 0x5ebc45a41e4ffc9e6ce732deb3a0f2f55f87d5d79b8d484c500524be469556d8, 0x3bff36ab8d851f2d1163d5e216a91abe8e70260b439434cc574ea3d29ed86d28, 0x3bb58e609f2f5295451a0c2e5c06b14981ab67047dedab338954a4ea42a964c0, 0x6dbf5b66c15ef54792e644d4e792bdd3cd92e6772c35a08e1f7196a625bb42a5, 0x6e3e729de75fbc6ba10808cbbae76025d2dd6752c1687ccf2e4bae4a51e6013c, 0x4e0d669aad3d0c092d6905ff73f4eacde95ec61befb67d4d07d5e55c527d4dbd, 0x19775c4b35eb6c76e2d8ca265561f3d3e50d1f48746c9ae381f01900b90d102d, 0x71bc5dab5f6fc746f8ee1481f7a9d861028e3bb15e18c8758e4195c5cd739f01, 0x3ae56992d17da3d045faf3deba8ccc5cf79a2746d1f08aa1f5ad94da45748d26, 0x5b7f0342f4999c385ae2511c337d2ff8bb980882c3f830b63834e71bf29b815b, 0x6b61e72f51b9d2c1494e0c58a3cc0715e97d1a7455a0837276e40fff7c62b222, 0x2fa18b4d1b461588dc0dafe5727217140fa4e458743048d6412014972a04ec91, 0x4b8193dacd40f1e892f4f862e5d2abead2b15fdf6607085951e7afc7cd6a1d46, 0x6dcd9bf1eaa566cfe3cb2e1b4ce514c7005401c006d0f61778892b8f2b654ec2, 0x242863f1ea2711296d28c8de8828fa42d0050230ef554d634c2833a03309020a, 0x382e0589ab578c8ba3f31a9bda408a53d995feceda2517f45e8ecd6d27e52d79, 0x4e41a19dc10646d416782140be1861699e55db36ab61d2c2f77372ff490868dc, 0x54d50a9e90cf8ba63a2b11b8056f6bb6a601a73eee885d3c89a36c694d202805, 0x112c5a9ce40a1fe005b312d6b500f44d8d9b93b1fd5482775a2359fd3e4472ba, 0x2dce7fd0e753da5cd2881e8d65cc1e5354312c7896ec6558614d25eb891c6e06, 0x355ebefc53b8198bde0289b7e5f3c2af9fa66accb1a151120b8c738bb26bca4b, 0x3b4c3fb0717740218e35a54111e4057a97918e7c076ab81aa8ed9819f3df4552, 0x393fb70f161374777281f0396bd6d342577c5298a30ec4d0c46167f497c8e1fd, 0x74b9108736c7a5736452a0404dfa8fb42442d1b9255c34d0f931176b988fc0, 0x17ecd0ef4adee61c027e9df7b0ffbc6ddb99b18b73e13a18a7ef2e52ce46bbf6, 0x21ccdabb8c63bfcbc69f0d50901dd256104620eb889ab99f227c05de56bca009, 0x17c5cabb5aed622cfd7266457498a4e9afa0803c523f3fce1d7df268d239bbc3, 0x1918efee0652974f276675c0a2f86dfe17a4158d86e9b7c9e2d7025110d20475, 0x2fcc856524b44eeb3dadc08362a8ad3ab24086378e84dfa3f40e988d78b39ac, 0x2e6a01ad126310df77a80ddfaa44837080a83399b7331ac2288f3b61ef64dca0, 0x3643c24e2414ba70ca4f025320e9539efa0bcfd928f16f4bd52d2f29569c11e8],
    M = [0x6217dc5a0f85429f8dce7bb808267bb5bd02ed3d9d88753a3b13b13a3b13b13c, 0x4a867dda0877876545809d29bd0c9d27fef9e96fa4913b23edb6db6d12492493, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x4a867dda0877876545809d29bd0c9d27fef9e96fa4913b23edb6db6d12492493, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x3dd414f92742ed7bd70dc88cd1efeaad81febddf77769776eeeeeeee66666667, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x6caeccddf703a573b0063a878907ba84fe81c9c2cffe763f0fffffff10000001, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x1b46fa31af7059b6a2a432d4b6f8e788c868db4bffff9d2cf0f0f0f0b4b4b4b5, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x46d8580827a75ac891152076b08d923c24f3e43ab8e28d8d9c71c71bd5555556, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x6dd3abfdf187ba0e815f38736770e79941dc14a486bb13c9286bca1a00000001, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x1163a5e6130ad2cad47be0679b0b7a00cc8fa566d9995a99733333330ccccccd, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0xb0a7175a27085d61d427619257d20c38e120f9ec30c08c2f3cf3cf3b6db6db7, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x6ea8ab5b04d08339482b9407ac1a7cbf444c4b1a22e72944dd1745d080000001, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x64cea7c2c00361cf7a7514e599124c8a328ea4e137a587a61642c8582c8590b3, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x6f1915afb28c42ba866cc45d093b19afc595bd2d8aa91829b555555460000001, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x6aa770fa96ed0cdc062af9f2ea24419e803dd454ae12f879f5c28f5b3d70a3d8, 0x310bee2d07c2a14fc6e73ddc04133ddade81769ecec43a9d1d89d89d1d89d89e, 0x896583f0c9068184fa5784c727dc426520e0c2625ecea5ebda12f6838e38e39, 0x5f3a1296990a8256bc5d3a98e3573a96a95bc6b95247cb9176db6db60924924a, 0x6beeeb3bc5a44881038e2168963594284523521472c0aded69ee5845b08d3dcc, 0x58e0de26287035620523d04a6dc8e1596ade30f13bba79baf7777776b3333334, 0x21a817cdd2467f35fe5b1dafc0bb5fbf7b689af89ce6bfdead6b5ad66b5ad6b6, 0x704e3a189050915df1a00947c954c945291fb6e2e7fe691f07ffffff08000001, 0x706a54adbbbf813e4130555d209cf08149721367c1eee4d83e0f83e000000001, 0x479a50c26c86eb7f6aef056e604d5fc70e133fa77ffefc95f8787877da5a5a5b, 0x4c2e7545473b9b7896b0fbad82ac2edeede305610e9fd60df8af8af807507508, 0x236c2c0413d3ad64488a903b5846c91e1279f21d5c7146c6ce38e38deaaaaaab, 0x12cc97ac9ef6f1b8ae5c6838a79db453e410ea29ffffbbe42983759ef914c1bb]).* from "../poseidon"
}
