// generated by tools/gen_poseidon.py
module bn128_t9 {
  import poseidon(Q = 21888242871839275222246405745257275088548364400416034343698204186575808495617, T = 9, RP = 63, IDX = 0,
    C = [0x2088ce9534577bf38be7bc457f2756d558d66e0c07b9cc001a580bd42cda0e77, 0x1b86e63908c4b12af43cec6810356c94d21c9e37d73dfff9742a58e0ec356be1, 0x9ca022ba1142d170f755212e2edc9d0a4ace33e16825f540d5d50d5a021a169, 0x277e69d47a133804241f6aebe9449be6e22c849c6d8ad8c938eaf613bc1aecd4, 0x17b57ea03754e24ae0ef425aa2ad931aac9ba5457a18cec594545a235db6b269, 0x11c740983395e0f4a026e2c7c939236375c9077755eb1a37a77d5a1fd74abac6, 0x1cd85529010dd7e2fb7ea403515bab5727556a479c59b822efc5a81eb37bc5bd, 0x2cb9354002cec4bcbfa985de34f43d702ced83d197aa374b5a1f96f87b12f292, 0x1f7af98e08f6877923f27a3dad40c525ac52f56fbbd878506544f9acd61aa32d, 0x2b15176925df33a45c9e99a7c4f26ad946b1075de58c7064c0ff92c431d31dd5, 0x22c89859b4d399d3a60a322d6b399b88061358493f3cb3653fda940e988c1ca3, 0x1a9f2730c80854d8f6dd98109363d405597039373af5055aa67fc18e5b1938fe, 0x40bae2c57fc68e3ce5e294998ea060e2563ebbac58ff8fc4a1a0a40575f0ed3, 0x16bf4f5622729467ee9749cc380605d2bc4d885cb99699aa2dd8565c4faf8b7e, 0x1045ecea044ba1cb1c3bf07ff4968390a3ea075001b21637ec7fcef61b11329a, 0x26a319fe6b7d6e08dd6cea9587cfe3f523492ece769f70f66d3b6197a262fd09, 0x28a5629b4c2083387eacb09c1571256d172ef1ed9c0738686da84216ba81bd6e, 0x186be22b6a063d18cc8760dba63b119cfc6d8897e32d6a0b19de280532fa9726, 0x2c41eaf9c0128c486c5595a1ced6b3dd15bd9b73218c6af88137cb8aa5c574e7, 0x11864265d76e8873b4d2ceccd18dada46ab7213321dbe0683727fa2df7e3cd7a, 0x1383e7371d7f3eb75f97461ff79565538166ede6fb6ac68b02cb60d8322467e4, 0x1a005346e9edc59573e3989f34c304ff1351de9642f398163602e138c59c7469, 0x2b541345bc4fe1589d649270ceed4b2dc6299c69a5d24b460e36f3b4eb486052, 0x213e74e3b88692068b420fdac7a62f3e90f87e8bd993310b982881b4ea7eb58d, 0x254370fdf60e319df5d27b984e21d8979c86cc6c9db77b47e9e037d41ae2b84, 0x83b7377987bed3fbd0c5ee3279cccb319adaa660bb6a79ceee627f5a6369ecb, 0xa2b26bbf2b84a55bc4c5b09b209d4a77bade4ecb0999e2a70021cccd4fbce1c, 0x287090d407c4c5293cd72bdd881ace1a4785c51889ac9ca053faef068533eb09, 0xa9fcc21a234bc22a473c04931dde66476001ea6e32931277ca4cdab62a8587, 0x1d79fcc5066ff2a62d6ec0c096f3c0623f9722c5d10d6411386b8cf06606d116, 0x1d2da676081b7b0a7d87a57c6a6f2c91022a82291934ae8d646814f38b7c9cc3, 0x121189d7362dba92f3bba28737ea247e85ff4b3ceabb4eadac26f7a79d371ad, 0x3ba01bdc7f31b4b3626831d5e82852a5da5a7f472f497564362ee63bd6d6102, 0x216487ac4eea81e4d835b220c7f1e7b7a3312df5ed0b6e606a169bdec89a35cb, 0xeb5eb424bc72e5b20779d6138a7296dc333b4d98e4cede698c1d8f3069fc804, 0x1476087ee68863fe69d538de90f90bf271875fafec3aac6831fa17811afc45f6, 0x25995ecf079f4f81925ce8050e6bdd0b440e7adfb00da7e4dfd8a5aaec009f32, 0x1b590ea145df6152ff0e8eccb97f057eb378d3dc8585a8195a8fc6b03dddb21, 0xebfed12777ad9747734d82fb7ab59ebc85f07c3d055eb987dd42470e016bd52, 0x2e03b519ff070e31bad1ced25d02de18c5c073355890f26d6437c9990a3e232c, 0x28ed48befb70534a157c0bc8037347830ff6f7bffeda93a22663117c3038109, 0x21d5480ef2288cf37627083f5c6ff5806645d7878339792169d109945aa879cc, 0x2a017f4ca62717fe9d616fc3b74f426a22666a268eed190c92513679ff531866, 0x85cf123084d6b4b0b2b34cf06cf6f893e0a9db664958560e13102dca258a182, 0x1cab1eb61ae5a9c4f1b1f0f4cf71073d063cf8ea6ecb3a326bc3f2f24fc30ab, 0x8b659a737c0a7e198c51de07438e7faee94369715042367495f0305e89bb96f, 0x2b3adfef956007ba949e044a68115b0a9c895a81386e769744e7b5b2c307df6, 0x1a502a7b0883deaf9b24a7b451cf439d9b04c40af2fecc172b057b4fc00cafa6, 0x3048a536a2a75af41a0fa596752c83edb19c46c00e4072516a2cce33a42ce949, 0x1d008216832f77736b9f2c8eaf18d2ae69a7595a3d2e8725e75b3e9c66ab22c, 0x67389fa6719bb9e493424576d30d6254f1b7d54e69e1d1896c1b15ee85c0c20, 0x17da04cb5060861588a4dee60dacec407e08d6b19650359452705699bcdcabf4, 0x1e110b24526cf19448a04b71f91f834d903a08d3a7658e05ff0104ce6de14af0, 0xb0a28b67269dcfb242231c7384d9b96c4406708f1a7bec26160e2352a820e34, 0x226ba223bf5cc831bca604a2f55b324ad1d4b29b81ae33cbd7391ad0dca0c61, 0x1fa506fae71f617db6a04dba21eb6224accac5f7cff145947093bfce2f3f5cfc, 0x29724cc2973b5b34c4e53fb981f273589e7e0467a5b4b5a16d596f48844f0394, 0x20185815e6d5bd43d769b1e7b3a42369db44fada44534a9e41a181a7cd90cac4, 0x2cb5ecab94a2faf89986b565545493d5d8649d73a9f53133b614af6d89376612, 0x6772704a6a6c396f2f186272db825135c5986fbdbce0a3fd879bc27ee2134bf, 0x112bff4736679a477440e744d7fc6191e168efe6c37fd0beeb6e64d30591851, 0x2faacc248d2f742b7dc50b013be9c4b2ea8d00be172832ad07ac0e268e391a57, 0x115ea053915c9231d6b9a71b4f3437e76d08af6e8fe7e42a3800136498df40aa, 0x353e2c2845c0fdfc53f58394e2dbaca06164d10dbaf756127621b5a22181235, 0x29b3685900bbaca910363ae0cdec5f61cae2c52c7ede3ec010e2afeac748710e, 0x1a73ba985b824209d0a9f310920791fad9227b21bfd8e8a3a9f1c2fa89fac1a4, 0x274682d63a1d6a9eb5ea22e0558b145f5b9b5e845c8c9dceb83be943309a305f, 0x249de663dfdf6682ddc122e02aac0d79398f38e6089d92e2c892ccf949fcafcd, 0x76346a494ca499918229d2faf87b6b5afd4992f0d7d4023cbb677ea4376d4e2, 0x712154eb43b0a3e8bdd94e29ad85939e220daf6931b84464741e64e9926b50e, 0x15bb7e127b9fc937642692a92d864960e249ddf327fc6c92afdedd89befc6c32, 0xd438d885c3fce5b06a80584015eaf7a8ae05c60052c10ab80d80076800d8e11, 0x2bffb873c9b04762b2e362d6195c8013dcf7a5fd881894b7dc383c8aa34a9e0c, 0x24ea42c76f7350d08e8b1016663fdaa3f8552b9564e5ba2da45b76652707d6c0, 0x2a62ea21a0ade4740b808b9d838b4ef205b1193b579ecece0da34523c481dfbc, 0xc49774a68f5274b468cea0f32211cc9a8ca864c6d32f2c644b1ab89edf475e9, 0xa9b4d3d32564d83c24d4e052dc3072cffd61cbffaec957151fead13246073cc, 0x221179d848ae3c29baa0de8e19ad399cf000dcfce572ac310fc64bd4d201c3a1, 0x1702294352579a43d19da15dee1fdcb2a70a45de25203435e2340692f7f5e0a0, 0x59ab788273600685cf6de04f87ca9dbbceb1aefe37f779663a7ef5019d4d8e0, 0x23af64b1622be07735af1999691398ad6a034029a109ce435f12c1b21b41f599, 0x109ed21e2456ad7f94a0c6ca6ed942ef5e8132433e5fba6ed8f49b2038594516, 0x26d9ccfa5379d3fd6927a58958338d6037872271d891f19f67f70c39e0893326, 0x24ea9e2db358c1becf7dcd7d0e46979a647207816ae5a901fb00a6ccd991d0fe, 0x15a9b8c33fce93ae3971d193a430be98eeca1d27735974cf502bfb20c71bbc, 0x2bbb366f79bc3baa138d79a96ab5cd14826bd3a85347e559550bf351f296dc1c, 0xa1c76641eded157eaa1bf4aadc956791d9e7b29eb14d07654af052686b70e29, 0xa8a9f9ee8ecf8ad0b5cd84217af26fdce2ca16c07bc747d103abcb48ab21fc2, 0x26d6852b5917f4e229c46824d00b44442b77d8e566fe3b3901ba6de2011dead6, 0x19601734c30cb2a44ee4a323b35f2c171ed67e0f3c1fcec7096e5f01fbae6885, 0x7895f7f029f84c3f17e359b0ee926d402505587f386cbb71070bc17cc87d044, 0x5807e0a2b2473f3b87130586c7868228eb4d9503bf25cc2b0f35a939e0ef483, 0x1ac9ba8eb9e2fde0a79886aa8c7dbd362aa490a355e07982828be3e5099d2fde, 0x231c7595f76fea5828672afc5bbb6463cd00e7a07346e2588af5638e3b321b40, 0x2e3d1677310217ce5fcc58f4039532ff946e2eff2b80d17f581ca78f0068672d, 0x974163441712975a33b4093f922d7df17b2bdce7b7eb02c7830c5980464000e, 0x1cf5c1a4280822a59deecb82a64baab4edb87977e98ee29139bb51671b9919b2, 0x11ad46e13792150cf57933aa9476ec9184bfd5f23de46f1df78ed7e94cc81289, 0x828fbfc0951c1ea0c0f3d5af2fe5796ed792a9c3cc4002b41e7a1bb8e63dae7, 0x2c720a8486e7122305304ecf3a00f99854535c4ff404fe82e30e99e8500fcf6, 0x9bdfc942fba8824c0a38d6f525f9176360d2881aa425028f1cd3a7fc3ef72c2, 0x1d954a0f93250e5581c6b897fbd72f4f2a943dde51e262e7dcc4a1b2ca82e2bb, 0x2b829352e297ab2106e74f9fe702f69635edf37e7ab0e1a7f92f14c98aed56eb, 0x12d3b917e58f1f44e1babaa341d1dac923dfac75482e108af1c33368734a904e, 0x28a9e6c65d06ed6ea47795bde9b177b5509305f85326062ad5015077afe4bbfb, 0x2bd3c33ae311c2f8d4ad82508b76df890c311fc8d232fbc2dc535fa593221ca8, 0x272d00d7a8fb1463bb624f1dd774edc8f3a0923bf9059bae3d84da23767d6873, 0x1355a796abdfaa903b81dfae32101a13068f5070440552eee0acf2a4d07d03bd, 0x734bcbce4180ae16d4a6689b9b94f2b02cc7d74ca8ef1592cd16afe2a033728, 0x778d4a614c2f76e28199d989a9052e2627464b620d91e7b6d3d15dbd4799d54, 0x16bbc980a67b2a65434d087c501859d127db377ae144ff634cb8574fe8bf869c, 0x12a3e7e197b0504c6894366245bed65e326db7c7aaf2c1c0d59e4bac10d633cf, 0x1f35f8c4431fb0dbf42d9d07334fd67f99160fa9f7e20d811f4b8fea7dd5d33f, 0x25d5bf1a863a0a6441cf55e7c85b8f232ff1556e77fbcc6d71e8bdf349bfdfbc, 0x15e6b8d9ab7e063a3638216ae471176e87ee4ce30cc24cad19587a23332320aa, 0x1929ef47c7322b77ebd0d1a40f9ec4d41eb2641bfba35a9cba7b708a534c9ca, 0x184f51e791edaa2dea7911151247bad4b0e864d7a8f678c7708ac65c51e3bb79, 0x2605adf5562d5055ffb284df1ec0d4e371eee0595ce1422ac535a410597cd866, 0x6e6d41feb832c2fe007e1bccc81442585bc9eae1612b8bc3d2a4925c239ad51, 0x137eb7da068955cde28db6ae5e780b7ae1c0d633cdd113bf0fde4345ac9c954d, 0x2e97930eb419f7353ba27b25879753fe64d7d187023ce2de4bf9e70eba6e9bb6, 0x13af409362087866e62d6860fdab159207405bf9c75a9efd9321736a1d812413, 0xfd2f95404a9e92f46d57c80507375724966264560ebafb3ff2fd19259d47d62, 0xbdd93ac21aedf31826fc3012fc8fff14384add521d98135df3ce70e47d38116, 0x83ea678d5a53e8a9b601906befbef23811a6137788bb873fefd5521f7d99f03, 0x8a9906be6e9ab93cbf1b94f090df2d02df6c6ccff6364c2ed6986d61f16af29, 0x187b1c82cfaf880449337cfa77f618e3ed19c604e65fb768b0333d8d535eaa47, 0x245005f814e38250751143117f5e27d5c173f0ca4ea2a81b1b8f3e90d7fec4f3, 0x25aa5a53ec5e71f3f47fb1cf8ea8c757fab69a61274fb36eada71deaf1614db2, 0x1c244a2ed1922753b39ec6b775f07cad91b14cd9b6578b64492c2cc4b0c8bb9, 0x1664e5c861216c4cb10cf3a3bd51afa0f3e59eae24fcd7e7daaa853d46c382e, 0x2af001a296c111e41e327ad212ed30234da2beada0449ea1d2e0f0a00e424074, 0x16022bdd67d2ade15f661a287dfe23915433b270f28c24e6066e45039aed813b, 0x132d7ca5f935f3e8864268ad723e8780df36916384a54b812c74a749a26826f6, 0x20bdab9829e48c89a99d0e8b0d69b79a4a273808807ade4ec5db95fd184c4f37, 0x28db494350ae9c81ab52d719ea05f98dc2afe87bc1afe556161e61772258a951, 0x19fc92f1d2c1dc043af3427b77ea74e80ab9f6041e0e51d1b24d9cb9f3fb3ed0, 0x16bea7126b8f072ab6c86afca80b606cb90c7e5fd02bbdba1dd733c3cb884705, 0x1fc57b168a5badca15a417ebb4bf5beb28fd09e0dff889550a126f5833f1fd5d, 0x1ad20d1a3ee559b6334be4ba911dec957d56699cf37dd7b97d23dcbc65bd9afd, 0x2173430a6842061f027393a443b6e25e59a3e5bcd20895ade0fcd7bebcd88885, 0x11673173043e15137361db05a0b067147a23d7f3003680f3e1534b183fe27cd8, 0x37c80af5ed51c1c22181f3e7738806984493eb998add05556eff65129259ff2, 0x1d70b961246d2262cacd8c0954040548b63fbd25f3038285c36f6b44e9b9ff5f, 0x2184448a7bb80d176dbe3de73f383a909635e4610c25864b2c63252186b6c44b, 0x3bdca6b22fb80cf9e7b317190ebbb9f6c7d3c96c1bf7d5013f36521a5dba7d0, 0x2b65873313d5bffa44d510dcb3f55048436f4eea91a100ec0d1af952eb64b247, 0x2a7fd02ef10db1c9dc03c9cbe82e857cf06f37ea10e7e3f539b53778ca274616, 0x1cb880cea192153865713565ee4255ce72da23b3d2142d265fbc2196fb8b569f, 0x16628b6f83fc36bbc1d60029a69c843d27484f594a7e3ba8d47cdfa548a91a56, 0x26fa9b84e855f1069e76e037104f8886b760d4919bed798e2e4b8dbe0080f16e, 0xee86c87bdf0ecd526e36a6c4ac9fc9bf05b9161856d658c1b9ecd80da9e9687, 0x8a5179993a8056405527cb82b6f619984c63cd115ffed3a6734ffa85267191f, 0x47aa61e4bf0721ac4e0a2f291e62124bcc2ad3949dcf96e875f45df7eeb5437, 0x263a511f033e1fbdc6d282b52712a09bf5d1fec21ea8bbfe2eb1ef5bc4f21148, 0x226520bf730486e2d8c859b449bbda7631b86432a2c100dd7386c9b1f993f34e, 0x2baef27107a52854788f0c5a940f5a4df0d18d38b893cbb1157b386a7d356357, 0x18022cca17f26818d54e60e300b5c949d9c92122f7de5651a60cf70c8da5fc52, 0x7baad301d58460d1e6ed10f52abf1bd785caef8565777fed94dd67de6717d25, 0x1e476106c4bce3903a5aac6e110df2cc1a7f71b4135be3662f4b01047e248a6a, 0x1e019dea5028d23b2df063c210466a88c3fc1ebdedccb8045c7e9d1bb6e77a98, 0xdd55f006559bb6747b254d29a73f5ea7174c6b6067e730a5f9a9908186308e2, 0x993085a8024a598e0c9059d3b919fb2ebc81be408cb96fe38a48a952c029189, 0x143f3cbf98e40971b2115493ee06e26c7893787bfcfb13b39f165869ec7fb9b7, 0x525ff28fa24291b8d033b021395754fa030d497312cc17caafd008524eda07d, 0x2d9fdc18cd2586b9f449142017909392025095182d5f40d5911f708eb05cd852, 0x230997202fcd6f051e1bf1e59a9d01188e3621d613fe0e78e6dfb400efb43f45, 0x44b56469ffbbc9d0c0f075e20f390d30d11981a767e507b80aef7ed69e7171f, 0x1507d88bbe10b21c23a94555d1e4d379aa71672e002450393eaf7a23736150b7, 0x104d6752a761b50026377ec798404f71151b3cf6a9ea1be93c6840594824e9b6, 0x25276305cdeae4c16558de60da72941446a9fd2226aa604d44bbff12b1e0ec23, 0x10f3cefb054d630bd7dc4c7cabd97940dca683dad8cc35a6d0c30cbd9812051c, 0xe406cbfa384c6b24ed043ff3cb1d6891baff0585afc4fcecc7cccec809df03d, 0x18f36033fcf64f1bda0c12616b00b611863efdb8966db7ed3534cfda40aeaf0d, 0x165d022a34cf10ad3255723635a51a35ba2a6db07572dba106dc56ca6c937c52, 0x223c8c9aed305b3d18265b56ecb7a4cfc4b10e58baa1365827a539c47819424f, 0x2103fee94674840b1aa185a1f8221ee4511a2b5268f1ac96d7b28c8984fde6d6, 0x1c1396433bb9eac9a02abf2390973c1723ec5cd55297a387a92806f78ef9d384, 0x1befee24005a88d2c9ae9226169e898106996fd32fecb72b0cb4decf109f1b92, 0x1adc49f1f1b405df727a64e98675ea0ac2fc742c806f0d5950c8ac41350f5184, 0x10a0e0cab76db0b6a00799dab1f2e4a74ef739173cfaab2d03eae240c9c847cb, 0x1a9aff62d6c66fdfed0eb91b6c4f974c1e047c0b27ef49b10d2933af1af3f997, 0x261967f6840995daf7411034526eb5ac725f95e21fc36c8ed191873985f95cb4, 0x1338030f85fcd2fae09eb016f4254086e1af2f88fe7dbe29d183c89ed5286098, 0x2c53745d1f0e66499ff109e777727e750c1134914cbb4d52bdf1649c7911ada, 0x2740100354406de4d94eb857a1c5df1c0e88d8b0b82d10c1276ea7d9f62a05d0, 0xb8a9153d3d643f0a9f7dc08f24d70863e4f150d1c32ac8905a6226887c9bcef, 0x25dd73d81ea8918c9c1ff69b0b86a0ed3801ed1aa4059d94eb72cf548b2eea1d, 0x253d813cf05f2ff1c7d6622bdb9faaff277b4d0312a5888a9dcd12891ad1526f, 0x2523322d2d2a78cc54c944b57752bdd8d2c8e62e3af51e020eb2c15ed830f5f6, 0x2ac9c2d60d456848e8dfd47499cdbd4f2377f3b4ac98e10e2ae3e4f83b0071b4, 0x2a4e35f1df833442f9ccb8c75523b1ac8a9716174f47fb0830d94f9bc4386bcf, 0x270e7f6b15f2c0e0926147cbf79a7330b676d174acb65b730522dccb096f9fdb, 0x1933ef75d4b862f2274634e1f5a4e50ce899f15214f0b8feaebb2ca2ef52ced2, 0x165130ddf77a82db84278a31841109da4108d364bbdc6acbb1b0fa7aa5175dc5, 0x2fc1fe031dcd4538d5d8b1340d0d37df5505e965b7e7dc4c19895b9f6fceda6c, 0xe1ead2be6f64559d903eaeb6e02a7c85d546422e7730e360a1e4bcc0f62f16f, 0xa983360bf32392d5df30a2e4b22535a4f161fda3d05b1a5067d278e21c8e54c, 0x2e27e61828693607c17eff9bb1e5ed0baeef782e879c5230b86d6a79d729f4ce, 0xd1cea26a08207e522ace505e837caa2ce7b105cbd04e7c838c1acd006ffa53f, 0xb958dabc9a8066de9e4cef89abc82e3396a03568376fb44ccde4c38cb2a1944, 0x16f5b42d88f8d4f787ffff796bcf8175b1cdce307261dec86cf2034a9b88bbe8, 0x12b68aec2db262e0a61f0fd4b976b00ddbcf7546ef27f47d7435a288c2b6c63a, 0x1d2238d8d9768dc639d06ca5870e3503f3f81ef863300944c87b77628ab6d84d, 0xd164e32fca3c3c8da3ae332a831cc9a95e75d4833ae232ae382bdc6b790d91a, 0x2fcdde6d6eabd7f2fa19234fb157661b762a5c47b57739a62000d7f6ca8ef3b, 0xf133b8b1e54f43484574647812ca377c802a1590df5e5b8f9c8c21908efbe37, 0x3057ea8932e9bf7d1a4bad8241e14f1e60afd13ba4e90afb472d9dd29c42bde, 0x23dbcb6ecb4807740debdc825f7764571bc93f33645825d0e45c88b0088a9f18, 0x1b90754a2058217cdb64ab45e24c2e29423bc3a76f8289579927ecdf63edac9, 0x28db800ae16d7033c8e107e198aeaabbf9d0271c74d957c6bb9514a0f038fa91, 0x2f97a36ef93a7904cbdbdc36e5ef374e58eaf37b5b9439473cbe477c3fab178, 0x1bad1d9637a6ad6db5cbd19ba7b955a45b9e8089d1697445a130743e03ed3caf, 0x2b96f520dda8251a878b28bf96d281855b9c43220b0a3279179753f740edae80, 0x41f97f76c60b28e0fdf7974bf922b7a0999e0e0e40c654378ae12843212909d, 0x13b5cf57475057a2f5fb6d08093123973aef9726cbd9835b95616c2aed5588e0, 0x2ca43aed5aea162e8c9be92a15e7ad0af84d44f3d2e398b5f7491fa2df12deee, 0x89f6b1ec8b51cd1e6ea69b9649520a6f0f2f96ea11df270ab0c5d9adb5c3df0, 0x4f510cfc7e528370babb8ed7c50c34c6041772627793a0f3711d1300b4d1275, 0x260e12c47d0ab52563affcdd5c2862f4bad5b7af4ee037ea5f8164d0f13d1059, 0x1a656424760e75468aedd8515b3111e16cc0d60f8dce451f7bb35b12dec772b7, 0xcc850e959c567bed20058b6769fc27a6c70cf72f222b80879e9bdfbc6711a9, 0x88947910eb3b43ebd8688695c64ac020e19d0bbe875a7f3a0b699bc60f18cac, 0x2c25c236bb48035f45fde5b178105655ace9f3f9afb09071e790dc4babdc86be, 0x12dfe1bc28654f5c9ba65865769c9e47f2bde0d79ddbdda21704904b2905da68, 0x5645b68f99a564ff08f745e1413bd83ab5b0442f0b8efaa2a986a6cfb2fd8fb, 0x17cf3ec9831b4d6ead640d912e41b4c72e9c259126bf6310fa4b110e43864c75, 0x12b15f28fefe5d6fa519ab9cc67a78c57dd721ab44af286e72fbbd5689a66f61, 0x2da44f7210520779cbdacfaab2e1ef01edda8eedb6fe6d037ffaf8e59842a00b, 0x137ff7323fe757f32afa165f11588b403bd393d5c9a961cd2f7da2e5d9a894cc, 0x1318105fa9fe1549f04ef48679c73d46b91ee0bf27b4451195de945c8cf78aff, 0x1408a4259df52a491775936b2c2d476a121708c312e635ef8d1f843c3ba3438d, 0x10cf20dd5734c18880dec5be44ae2ddcc4f447f20cac98c95193eb7571585d07, 0x2787fe4623bd3264e0c8b5a471974ac1feb1e37fbc3a9c8a4ea74d6010b7d08e, 0x1b90e21074907545c1dec3c59dbf2a6b1f703258bc03707e33db582d45ab172e, 0xb8e912a5ec5a0bfb779a0801b90863edfd9429a7b3632bb5022fdbc40636cfb, 0xd9982378cd9a8370bb7a555c34df3183ee6b0d8abf31f1f547a3993044188db, 0x1e497bcfd5c95cdfd630b0afbf6d376f29a468d1cd3ecde56f6940221d248af4, 0x2d602401cabbc69dff3dd552e271eec29a5a4acbc935686ccff9a15076585b7a, 0x170a5f4518f58544330671ad2a361f2c803c0d355f3e10a5784951f2abefa707, 0x21b3a23c3a553d401c08502eca497be938776af671edfe44c784956acf98865e, 0x224dd497bf3a4247b9c48c9ac3cee5307490e824a14204ed88c2b1166e8e479a, 0x2654965a3bf3c92422fb54e676ac8401baaf0f68d42664e300624a375302e0ef, 0x1d525f4105f51b69c006828670e7785b726e95be160ee1a3e299677820839f32, 0x28f88d089f421ca2bfe697270fc0f34f50ec41a1ede53612c52db74479b4b323, 0x82e621153ee34324e9fb7ff3d123fc9560ef9af0fa0f948db24d1c8e6f07a9c, 0x7f8578337523867b1d9403e9ca61ad99c0d7d5bcde4f19d8752e12a4d5805f7, 0x2e52f30dd05931adb7d7e85255849b062ba1cf2eb8d59208b5bda8e35d69819a, 0x14cb3e56b2b8c6605ba04261a8b117791caf26f7c233bb183f83f72ef4c8f345, 0x2fd6b4e6c892609fda21414dd8712de845eab305be627df4d36c8d325c9bd7ac, 0x325898c8434f7ca32ebd73f53df3b1adb0c9940a69e9191fd996a4a96157bf8, 0x8f50a7b584dc022b85d6a16a0d3dff6b8a7ec4dcf5ec066f99fc4644d6d5d48, 0x29c5bbb8eb214fb285ca30a43cfd7141d9ceb8a19ff3c970f2bbf4c9bae9e11f, 0x1264cbd9ec001175211e2856a78901e4088f1eb7eaf5934999e1997307e7432c, 0x28a0e7819aa0251e9cf2bdabf64fadbd51dc9416533ae33f7cb97fd177688504, 0x1a9be651c412fee6c800848477cbb67e4c52fc23e51ade9c48f6af307ec621d6, 0x1bf70a24fe7fc8946fdde6f556b3ed4b03c33005cbe7f34ac11296e5b0c75f6d, 0x2f56c8c0387e5e44cf4921abd33b1590cad0719e932a36195c5138e0c6ac83c2, 0x1109db87b7684f4927b2afeeff00608af5f211920eb8d638e3a7c943b293fede, 0x1851c29804025b6f9c69c80891035590a51d13032cd576d332ca89222bc75787, 0x909e4cdc0bc47f2df4898106b5c40f25c7137e1d5ac9a986c9f66fd5dfadfba, 0x2ae3e90e2650e286d5913d4dd1e71d4f233659701b319aa228e16af9f010e07e, 0x6a6c015f95173441f7a40d4f1bde04eb60fbc4dc72fdab7dd81ec557235d530, 0x2f6ab5d35ccfe9ea366da257c8596fa6ff30d6c46816a3bd3d484c97f8d2446c, 0x1f9c60308182eb6d4a83f9272bc220a8745d9c9127050899bf6426f7ab57cdd, 0x2f514c412bfd9754e6798e4c3cb13d5e4c4b29609d3ea5617ded35bc01d799d8, 0x14c4162b9c9eefb97941b1f133bb18225d28294d092cb8917afcb3e08abcd9cc, 0x19921fd625c66ec67ecd8af3d6ff0e0a3cb650e1e72b3fc98884b00354085b32, 0x1c852aefc9296753e1268739ac15d2c6d21de3436c816f75f93b8debf37eb6ca, 0x4bf4a69b1aa4f304afaa1dd1bf60de1f559e8167edddac1eb88ad9d02745fb8, 0x240a791f3b8bb62d5d9aae80f341cb569fe3fe72e7183d8e5830165e4d123753, 0x151b295b4242e0c09fef7bc5ef40f1e3c8551654186d62cc663ee4f28ff5e764, 0x86eb3d30bc4d80664a074a09739dc8c497c93cf7e657954b0cbf7676165f23d, 0x17aa8992d7b901eade7eacd95a8e89382a292a7121ab0ebbebe0dd62622c21c4, 0x1a5b3345a4c0d875663657607b5c7ff832f489b23a3c43962008570f96eb8de8, 0x2f03b46d9eeedcd7f8f4cf2cf710e48ce3f31d1364f03345b2a7964b01e6347c, 0xfef583e7e8e102feba879f7bd60241870a0291723aa354a35259e0a40050d45, 0x2e07b5d70ca583cf4d9baffacd02d7d80fa5e523abbd895086a36288b969fa6a, 0x24599dbfa1dd1f4714d585248cf23ca1394b858af8e904c0517baedbf2f176df, 0xa826afd370bcb65b66189e8d986777e61377388d8727e407b500fb5291f8ee, 0x28745950870bc1848adbc5f4bc03415f0a2bf23e905e7d33cad03de907081e3b, 0x219e6dcda590fc88d405673d2cb4710f8b5747b46dd9914d1be4081714cace58, 0x296692077b42e972399f17ba71ffededd95185ff7253d9d1f41747c6f27dbe6a, 0x2ccc5f0e2049d426841862f32f8062829fb5d826a6a483dd5078de859f9cbceb, 0x4f915a4fabc8ab208a615dd89fa207d367700bbb9bc061d07fa90a70feffda2, 0x2e04b7c1aa853f9ee5e4fbb5cd7b6e60ccea4ed5928a34f4e59ea9eba8794708, 0x8700df51138b36c0ef2bed12bd78340ec69b04a2e1b865108036391b4b6db3a, 0x2503336398f165bdea8d4929db1dd0b3710416fd63d7aadcec41bb7062c24782, 0x5633785a50a9c77573ab10d893341a0cc2df072ed8eab9a2996a47a527bdaed, 0xba4084e44c50e1412a4c982dc0d8a0d4622513b7c96e9fccb2c3be2d3901e1c, 0x2d6f32cb761406dfa9e03d7ff8a43bae106dc4519c61c3996cc9cccd8f307c86, 0x2f959c830737e631395846373b1f7d003c8e6bae3aea2edb73491244f8373687, 0x14863af59792adb1bb40901664349217498d999250cc0a858db27aed54fbaa38, 0x27623d101b1f922899f9c5783e1fdbb1e7552826e4d6b58d6df8d986937cdc82, 0x247328a4d9ce81603e37ea72cc5d1c895c21f09305301bf1411c0798602a6268, 0x1921909aaad03cc78a6cfbed6c1056e3d93a25a5496cafaca12af4ce324c6081, 0xa85c0358cf388b47d14d42feafbdd4392df154f649b7213e29cf101aed00d80, 0x1bac04734a5920d65d67aaee04165de621beb56f902ca483860f7077537512e, 0x1dd1720966b3231bb00b08d6b8bac6c76dee5454f784134b93d8c70ab3eed999, 0x22897debc6eb2a7f36bee1e7f42ed4b0d37ad696535d82d39ccfbbe92e86c08e, 0x2ad01bb42b95d113b3b91ad88c69a33c1e94dc85512bc5168ee73065b387e175, 0x2e82bd0a053ce03af9aa947df5f131791529a57f8360a2cd697eaa177c6000b0, 0x2d2daeaeaa93a5f9d8b6529f00c4c6d691c3bc4efbfc8e7c2f08ae3e44e1f4bb, 0xab08914b2de57397983bace0b327f98c1a9c1e58c76ef2e716cc305727a0f72, 0x2758796cd1c178ed0c433c4f1b6b19d42ffa1bc884c3cd1ccca107cb2bc91998, 0x63df5b0349016e7bda4741ec898c74e4a30fc4f1b59fb713a824992311e30f4, 0x23713016555546753d41abd69e6fb91e4344b7c05838048ed0641cedc5fc6728, 0x26bdfc0a894998e693b7e2059d6a528aa86ab57eb031b96b53fe8b5adb74c075, 0x8897118f75cc8e9115dac581b9553cb407a1de135b632541bb734f53985286a, 0x2ef8eb2c7b26f7a57691ecb1e15a40afa9b3a5557abe81146ea6f6d4960c346, 0x254e8e5fc11b992348fd7a2c9f4a5a0b586bcaaf12603658b25910f63cf08b01, 0x2f41c21b73dd4e7b510dca16e7b4b4277301da5fbbd59db03d3a32b89c57b7c, 0x253f09ce9ecfd2aeeae98ba1b29806bc2871e5fc67bff13e303db99618e1d0a0, 0x4395eb655582d03f25775e66ae67be0aaf7c63ceffbbea9226b04b0e795bfc9, 0x13711235c3d21dd749e3e41bd048a32bfa2e796e26b72e05c999e6e6126e402c, 0x83c75117510a37d43b5513963fbd0f9f33590ddcc297e3cdd9ea42add7a175b, 0x26cc9b5718d84e606582d35d8fdbda944c6525ddcd7488cff21d4d0d823dcea9, 0xe8978f047929b1a94601499634a8da020b9a46d0b1187d54504ed8a344d56e4, 0x2b11423af39a5d15be397439b5ca50aa9a6d41234acabed2006247688f6fa805, 0x21a56381040c702dda5a31a5aa275ce692685625e5aa77bbc430382573b402b6, 0x19a869e15b3f9b965016feca2cb82a2f14c800945ba49db74aad8e9346af07f6, 0x2b01c5a2baa16f9569d4670098466f05bf3ae097aa930771b76f24afa6be50d5, 0x586148573b6b56617f94602fd6c86ad4a71b3fc67a35448d64eaea532582124, 0x40352e19809dd93bc7a2c549bc19cb007872e0599a3127a3e7704411894f98a, 0x2d6486b8e7b9549ea86cf044e8950ffa36974e842e1fef876561e1346c5a893a, 0x2ea9d2e1b7d07c9a3895565840e25843c9debe589044f305c1b5872c74e5a49f, 0x12e0dc4105acd8692b7cea0bd76da34aaeb8f6d00ecf84b4f062270413a8087a, 0xda9c10656e6f42c3ce7c980a70c9d793db4df8307599a33a491f24b6368290f, 0x2f3551c6a648387da629c96633d5cc99360d9b89aec23c18ac76af21b11a850, 0x202de33a6fce9dfe8aeea34af1ed5c74093386c8a553d3a3da46e134731dde14, 0x7372d41054dbc009e3e91f902d57a213f043575f3427e35768a5a52482b1b7c, 0x2f7e35a4bbe9699949a819262943c97e8e938cd999cd911a9edbc716e2454fa, 0x2a27b84a7422e29b8cc73bf54bf535b011606c819b4baa6824b6123036d73ff1, 0x19527e9093b313d5d2638c863499839ff5d8e5f98e74b312fa0c63aff7161a3e, 0x8571a6b8b730363299666231e3c49ed231d1e355d93894c8562ba033147f025, 0x2c0f32778edfe932d912961c81d88e98d4fb64caea2cc2d4e3f213a5d2a1b9ed, 0x2710a63e84f8bf3b15da09e69bc24c567f84a4577610b19cc58191b2b1453ea0, 0x2d4b8440f168745ed84c3e393f75bdc0b0fb3f148e4ee77b525ebc258a953dd7, 0x234901ff3ec65e0a4f629bf6e96eaf379aea7c808ca9ee79b6b796895917684f, 0x28a529a627cfc689ba1bb3372072518c7720b450975339e87865c36be526e5e6, 0x1a1af260473d83489a6a466ddc1855fdc6e83d73b5c5c0fed554af11c6cef5eb, 0x2fd594dc14997e8e0123f3af16c9289d088264cc16a8119e8f02ab7270952924, 0xd3564e44716de8c02d8f8278b0d2f819658234bc4db59147fa3a5dc23eec833, 0x293e9ac448bada42377dd8b02d5ae5695e886e0f8e43f01b38266aada3cfaa0d, 0x2186e961df0728bcd7b667d35e95f354cfb1ee1288aefb7e0b2381296daecdb8, 0x1b4972ee03b2787a27219cdeab7acdb5dce44bf8368a0c43e1e3b8c8a7f49e74, 0x1105ad26651d5ac52e817c32d86a3b10f05738fce996b2fa905ce1c3279522a, 0x72b770a70dab242ac30d03f5d2477595cf521ba7c91478d72e45358569ef30c, 0x1e399a42196a8061079e9d61ec97ff8c837195bb936206997f5a93021b70d275, 0x24f50ccc3a68ab3e2cba453ec40a8796a3c59735dd3303bcfadb6218aefb7d6a, 0x14fe92dc9227b42df23f8a5a0a7a2f50bc119f01dfe708b9118f75616714bd3c, 0x24713d85951736c77b66941c007d170282271958c98fd42d6b12696a7065916f, 0x5cf2ad05c75de38238f63258c8dfce0d1b698dede7feea9a97b263cce815ceb, 0x2d62695c7008a11d0c874b40395a695fffaaea6e6bfce85ae1580dc48218aa26, 0x19e47227e74d5563126770fa5ba61405ea6f348565c3aadad0830b3ef5d775a0, 0x20e43ff580378bafe2074a6b2fd50c74594537f98565f2d65ed8c15e5ca1084a, 0x264e4841309ac1aae92ddd9cb4d973e237406d50d2849c7091bf1c1bf5c1273e, 0x1238beacedd4f53b35b578af1c30c077f4289680658fb26ae1b4c0b2f710e604, 0xd90474c262aac1913f37459d4f2055dade903de9bc02fa5fc7c137cce05fe35, 0xf5aaf4827d5f40e00235ebd1cd1b9f6ebf3388383e692573b95cae4f653ad82, 0x2cdda4350f35334773cd823df37097ee967c28d62d0c45c34d0cee4008834893, 0x1c0c8c2ebb6860e64dc46755a7e072795bc2c78832a618bb6a2d5d0911b7d768, 0x269fa26069db1cf0cb705bc3584c0150b85642d4f243d5e68d7240b8e8c03276, 0x9b443b0a7676575b9a6d3f003609fa7c7b6226341ac8389258881d994fa91c8, 0x191b4697a8e295ab80f81b25743fe13f3fb6998e9131e99a86f22bd33e7bddbc, 0xb488b6a875f238bc324f04288ad865c8577e8f906a971ad4bb9d91775645730, 0x275928b25e503c9c95c01b18a5d30081bb0cd31c36cd172bde1db83287f5f5e6, 0x1fde053dd87291d7e14f0f2e7b7461b49f60e4afc39cfdcde65d70f65c3b026f, 0x29b2c386816e9d3f76100e8fb9543329ff88ac29199a181358dc231aa1dd3e0b, 0x4987de3e3121811ec3c10421005e133fe1ce9c2aa7d7c54a26f425cd19767c5, 0x19a23ba97426bfa81b757e35aa3559050628665eb496ed8732d409942fb6e16b, 0x12333e97d1f0e3280b5e2f9d96561b2c04d001d2b393791a861fdc26c1b7f767, 0x23e48a5b646d353895d06928a181d75ad25c95a7672f3a1f4917ca03baff3227, 0x1b6bff423317d2c2721965972823ca2e93b8f2bb0a52245cedcd94587d596382, 0x16af0f387b9ba94c0ba6d176df30701ff378b3524680aafda4f7c4df4b088b07, 0x1bfad9c1a92234ed97c51ac7dc2d80f2e908c098b28bbe712cb75b92797a2103, 0x29bb5064073e9a6aaec7bfd94d48fe2207d90ea8962530f388442ca4d95e6256, 0x1cbe456ec3f8d8849e10fea36509acc3647edc3e765f4de7489264f5e34033e5, 0x87a35062dbd735636f76cef6fab3b412749781f03b39b181495a62aae42424, 0x1f1219145ff0bf15d9645e347879a7347f9a6a5f3dea9a9bf9495174d228bcc3, 0x7f93fb41605d3cae1b42b92d527b2ce7cef14ad2b907702afa13d76ce02f88c, 0xae3de8a6edd589ab62767e92f3c19efbf32115679d2629a5ebd26c1c7d34299, 0x15b6688e877724b41ce08fb17695347b5eb8844423c71a98ebcc188c23888dcb, 0x131cdc252f00cfe48cd6cb1b15344b6fec8b176c1ca5584d76d6f9f6ad26bb13, 0x1bd570cf878b3dc1616ca32bf55e0b3fd898444d0e70d64909ec789ff11e8eed, 0x1e5a54e71ef7b9eabf717c01dd99b7262c3b43d1d6960094b8e508d1e11f03cb, 0x21c88de360b36a24fb641014feceacee94856233dfbccbdd1e9f0f35c9e7fccd, 0x2ef387dc1012ae94898b8afc9aa54a3be1f91820b61ab86f45ecb3ae21e23ac3, 0x283914da97f036349936af1157c536d9c2873fc3c1543afdbfc1c0c55cc6d5f4, 0x276ad4f7ba33971e4db2292c7ff704d15a14246a6e7d76ea79f1189066dd42c0, 0x24ca7fd6a2014d9821a624bf07950e8f64f5e6892d48e4a71cd4f63e9e2c63d8, 0xfe8f370d24968de4dec0fae5919d8f4f666673ecae78bd7e22dc2276364afd5, 0x2f0bbec7f6a255512df348122df4b91778775ace589d4657dcc1223aafbf2586, 0x180732ee6d3ae2aa4866158f54f4d8b980013cc671d68c69a72d5955678703d1, 0x5a0b0ba16b7b0631dbe2c92f9121284974a7033a69be30407bec6b153590703, 0x2908a5a3204a9a144f6565e561bbfe9a4b664edaeba4106e1a57ac77290193db, 0x18c860a5d2537a84944a1075e804c32ec66cb5979908a8ca8cd7f2d8a7029c0f, 0x1ef80617b025bd54de5361dc2fb16cfb90c364e37f7a1f07ddb9ab292afc0e91, 0x2ab495215ccdfda498510f6d5dbfdac1429464e7788a229feae561be3d62c2c5, 0x251dc073bf23010a06bea25560e1be3ccb2c38e67d64eac680aea6c19952a7ec, 0x2201c3662a59685a511e2555643567df50772e8c150bcec0943a8af3f106847, 0x2bb9277b8021c5d354300da09101d24c72a842f97627a82065e5e67a22f465f9, 0x14f5ee46878e605585b3ded3fa8b9b7fd62a2017b6d2f30ed61339cca435e348, 0x114578668b59522fc7d794abcd2497baabd855f3fba503d5f5e0486047bf3fc4, 0x20bc06a35fe07cd507d0dd0a9da6987f228017055096ee68cd33eab3773a1146, 0x184801f655e82f8d32b94fb0612baa4ec983d1cd94cada67237670051d5fac5f, 0x1404d5fc7a2e8940778158fb2d303364892147a64bfee54b25d3906ab5b3490f, 0x251df4335e5164fcbbae73beb8cb57b809d71cb59d6e303db0560b0c1ee79e0f, 0x9a45be49f35c4f987b58d749c78c69082486d3f8777eba4103eac7190faad57, 0x2ede228b9b96b21dd5e1e6ea260a87f902c0051f1f203c788fb907df00e51177, 0x100a3118e3248ac400e6aab0e4e6b10f07e96de582c2c923a99cd14e45d6f209, 0x15872dba1f1047ac1faeac076b57513ad92ff71b6a6a2b32f27adce084894e10, 0x1f68a35d81c05733a573076ccd7946a4039da22e42959520737e4a6843283fa9, 0x2a165a1a2b018ab2fa4e581d7cb567d9b1515db27ea710af3683a8919e99a282, 0x64ff94b98a0588aa924e943ca627fcbd2ef854c66f917ae526f719fb40c6759, 0x1c8349f898cbf2d1fe6db936c53bd3564b673b72d673aaa39f9691e08283d5ef, 0x2e4628a8655d2fc84a32f10e0a95e92d0576739c07050bcb0158f156db6e7c5a, 0x68316de71fed80213380a8757b3a9d517e7ea1e4800a22c510755a4a1ec152, 0x229e32cdf952fd49ddac8bacca9ec0a85b9f5f1e8b4ebbd995ec5b8289a54289, 0x26c9af69ab4a7e08335cdfdf33ce102a14cfafb05ad000afa7383f01b9b5b892, 0x14bc5140566915518f20d51498ca60f6e5e48678f97c1bb58e17af4db8f232d4, 0x22fe06bbaccc5b18b4a8bf2cc8c47e351291bacee5c5226fbd0cdb308734339c, 0x1dca1403773581144b083aa9b9768db5a81902626de0d81d80f53d75d247af04, 0x4152e8ca329e892a4503613f3472ee94b7e3025a592d4625f420c45c56a1f52, 0x13ce7edc9f1c7d2ed533026150f2bb6d261f379f1fbb48a8d556cc5ad7914e36, 0x24f4fa36a48be01d0bbe57854d48399d81ec03c394fb2eec544a631f4e1cb1de, 0x26e0659af8c838aacc352710f1433d9df9ccefc47bd5c487a0b3c29a01e559ec, 0x222f80f3327ff730c8ca585c067b5ce946724707601b7a4a72476c4f73e7818d, 0x19cd3a66216e859e433f64e4f9f3e2ad9c58d993ee168ceae5ebed3049ab2f87, 0xd01aa823ee846c2cb695543c8499803101fc0ef222e3c2b44d8680e8a76188e, 0x2e17901918cb6f4fad9ac0d387757aa77c7207924e177d0826ebcc45c76488b3, 0x2e30cc49639069e2101cb479c7281e8715ce5f34d17c016430a9fa75bf484ad4, 0x18694d18fe6758b36c38ac70d1344c6d2b70249db92a74e1404683b2f00dee5c, 0x2597efc11329ee3e0c8bd40b4a78681738b4c52af4e55fb5be529996b56bffbc, 0x3ead8cba0d24715aea9ff5443d25ee640893186e6ff6c045dfc91edbbd1c94, 0x1e17e4583d68f0e1e7234d41915f2fa3c7b7c04cc2afaabd7f3bbe071cf1ca2c, 0x2d05098ef2828d71e8758837f5c973ec97b7547bdfa1433a5527168ee9f9d5c0, 0x9220ca57e2ddf5a1b2f2971627d1a74b7c1b837ade64a37e8e1f0d436051a7e, 0x22ee5c6d36a980b7a428f8afc999eb09868adc52b4fccfdb68b3f5fba518e03f, 0x1b70154b6e76cf9bcf4411203db1c19c77bc0ca8bef907ae8a4b4aac270842c1, 0x1a2ad9a834a4d41bc0d5bac3b7e9453100f58c8605fd112ef6b7a25baa7dfb88, 0x75aa06f43a273433cf8ee196e8577e5fa28844595b1f2b36f6473ffda38380d, 0x70f884d5d0093ff75fb09ce934c8733008f994efa4f556520f11ee8bcedf82a, 0x7d5a9301209de0fa56d9dee45f8480b12d33a73be02f078f7b9df6f9225ddf9, 0x100dd4a2833b127fd800d28af04254a018853218ce565a8f615995a0f2466ea, 0x164c79e2906202e73bcfb8105c5c10829397bcb0089ce03bafc5f0e627e0d836, 0x29dec9bfa2a12f2fa1bc9158dc1d3d1ebad1d849fad58d34163d741923f8fdac, 0x27d590c95d3dddcdd43e3c40f7579dde645f33c7b0ce03d55e07978096257f88, 0xc32e71be02fa8302d8abcb8ab2c6a3dc4e962e75955401c1e6a66157dfb965c, 0xcecd591ea4f3cfe0c7d3edf52f4f93d60a3126433bf9b9e47710d298c31e9d3, 0x70627a0421fde844216f5f24789b3f54d44f1a06184aa81f75aa227335f264e, 0x116f5232abcabac8a8b9f1a3ac86bfa97fe285811ec2cfd733f1206f449d1de6, 0x2a8ecaecf1355850d03fa2f1a7904cf3a2ba7d3bae30aad7a35cfb4a6d7dbec1, 0x252ee8a2dfbaab265c060600b3f6e19f24e491ddd37195211f95918d3d39b911, 0x23ed5e73a4223df85afe948fdef2b6e0d3c120aa31e2f1b4c89054d5218258e8, 0xddef510d2c7ba32e4331ddba93aa688bb9fb86173625037b86ba4c62a0600fe, 0x2339cd5cb769acf2dafb5073bd988be15a65bf8ad06c38a82d38d317f0febe8d, 0x26fb4a101c97c06acc999150483d44aa762b585c422bf8dcb37afbfdf076ab49, 0x77d5874dba21d260cb02f280c5fdf78fb8ed9e0acada998ab5cb833b09d1858, 0x22ddb2bebc8cd1c946f8522d7326702328511313b40b4a9e812b69aeb6113220, 0x2e7c43c6222e6323f682c05c571f6aa62a3da64be2c3f381698e2c0ddadc93b5, 0x19ee0e60fc2da7a295371c667ce850772acdbbfa0a9eab7a7c94a50c9c682de5, 0x4d46d32c131ca79258ef2c525659b8138c0e199ce5968e57a82e780f1fa79b9, 0x2ddd25bd37dea23386a030f4bcc1d4382635a6dc7ea3cf3889a5e8faca46bd82, 0xbe3e9d472b8118ce3d01a92fc168de78549347b44526893312fd5ec3d2726ad, 0x27fa8f235db616a5909a2f31896dc8de9594798707b477f343b48ff528e49b8e, 0x17226412ab2fab6223eeda0b848333816a4dd6495e29ca47ce8b96f8c87aea21, 0x8a2aca609e6344086eed8a710a35469bdce68646a435a6918277a21d03d4a8, 0x27a10619eec3b5211b7ce9c318df7edfaecf7bc84098dc1c58232ac25093e35a, 0x6def2df638eab9899865393563ec8bc81897fe0f1adc5c0499755f25497fc46, 0xc86bd5b00467b98563b7ad1b362a058538a7faa110a438b9d0ec7be8c50c098, 0x2237c3870ca51c0c9daf086524707a78be8845df471e4d4fb3f2e7f30d90214, 0x2aef4c14a514a36ce1afa9f2c5f1ede8d00530e01e2a704d70494cfd3c2982cf, 0xf425f81861ada856f01fcf0d5ef108acea281735a913d24eea75b55833b328f, 0x1e562f2a3a83be1321eeaf564fb19f57aec9c66e6cc8fda18999d5baa0b4630f, 0x627d8f4c1a8c8f8c5e1eb617598954aa814a756782e2cd85b79e8e1e748c705, 0x15e5ad36f719cca83a41f67782388cca380c25992e5cd14c670fd3c317b0ea5b, 0xcc8d138d0854f9b62697b7791da960be500e3529cdefd4f0b18d16c5e757ce2, 0x17ff555b52d28be1b3c46c80946df519e9de247d2cf8d8175086f975d24c1e8b, 0xfd5dd57c2cede876671978d2fd289aa0a02693252b74f7fdee8bd404e6c79e6, 0x203144a77c72ea89fcaff39b141def7e93a1da1fb9e22b7d0c6733bd72f06f69, 0x1979320524dfa45aa8ef35eebbcf6f621e1c855b5704d8bf755bed7daaf721d4, 0x89b6683b1f849dbbab0f1092ca04880f8b894d7f8bbcb95cade4e736ea28998, 0x2c2dd8e6610a0495784aa08bb9661fbe25c908396b5c3f2bd51109517fa28162, 0x2b9627b579ec4019306886e1ff4003aeb3a33249be5cc6b56dc3607b17e42477, 0x178f70a99501a6e05bf4ca79b2d6da47049f8c988936696519344ddd931174f5, 0x224ffa0f9d0d57eb0c7d718e99cf3b6ba01b523548ea0ca23a3f156c04083abe, 0xf2ee1e2be1ece2cd8aef1dbfc826997d304d88cdee555ef67a799759c39ed4, 0x25757740ab14ca93745a76000e24328eb1a3d21d3cbed1930dd1ba2cbf7de236, 0xfa6b963bc65bd930510b3ca6e1ae62c1b4675edf79ee79a7f280eae6496f16f, 0xccb794ddf870bb92a9cba5f859fb3cc3f4eb1f1117d14c1caef37beced0e32d, 0x123fc6d306f17fcd5a4309d4fe6e0cc1ca00fc23ea9447a7c6b68c7f6ba50005, 0x22162170a1f845eb0aa1ee7baea486212a09814a9557bcb9fc72cf90f0a29961, 0x13e385a5cd2fbda978dc7740e927ce8d422c9ee861c43036257242484e497e3a, 0x13bebd80c2022724017d8e3eb84c269810cecf47f9f57e237bb4be69410a7803, 0x13ed291502566a7033b4c4607245156a158a6fc84f4ba6f0246c1de057d8ff1c, 0x2ffa06928536af91c7ac3b7714f204e26c541142742179217095a6e54f743247, 0x2a6df655e926c4aa029749aaa7c9a40a10fd55a368624c148b5e528d4313183e, 0x27d8531ec6121a3eca74db524323fc100db502a580b8a4cf8651f1bf6b9b0238, 0x1ea104a44d82fbe1bc1ccfd4626cea0c06693422b3846b3a2b4aa12a3b0e747d, 0x1d69a3852720a88758034d954dea602e5989114a4667251b0da5915412ac5ff4, 0x1b8e232710f6c1ceeff9c1086d49cd8d2e647f6926da913cb5e10337d7f3d7e5, 0x2d40d3f8e6f9e3aa6014c69630dbfdf3169f88067574ffc9210f7da599c4fb3d, 0x24e1c2f60b1cd36101770cefc4334a8c02f00cc696df64f76df54a6fb6f0508b, 0x2408f2eb6b1e958ccadbff81c9a44913ac0c9cb5cbcb4b4054017abb3db8c04d, 0xe3c6ecd281ba2e16aa37dacd2abc38eb07c1353dad96e87d14e5ea33ff8ecde, 0x248c7cfb7ba2e71819bfc755eb9e9a306cd0f6e3212e254090f0006d9ec543e8, 0x267fdcdeecf69d799e79f68632217df51226d8ce39574d72b4ae4f39d21721ed, 0x2bd9173ef276b7d4911ebf78dd15342eb261603c2c9afcf4ad831de9fa34bab9, 0x1cc0af33d07e50b2adda3346723006250fabad8fa3ddb365c1d8582f4dc65f14, 0x221f2bc4b7dce9195f9ca9ce8fdeaefcb05440c20dd9754bc59c11447caecebc, 0x18ebd5c63b0bf20f45d238fd0cab5dec8dbf1996bcd1b3489f3c2499ecf92b07, 0x2f338bc5a586f2774af3beb92aa92ce8e58a5efa19ddc891be47a5e77e9f5a4b, 0x556b9c3784145eb4f2ff6e0c88f41989da5907f8c7118ae492939bfe4e9fb1e, 0x1ec100367f65684538bc6956805ed37051238a3637e47022a3294cbde38b2284, 0x1645a29dd4527ab91a4b798c7096e832073c8baac6e5db87e26c215bf448f84f, 0x22a78abf7d5b362a743ed52ef2737bbbddd375e9b3bfb42409a95ad105ac9350, 0x1a9921dead26c55aafb3ac9f3f35acb61a49d5f181e8036540830bb18686eb37, 0xeb8645b0d2b8f0c3927d4643574c0b1a588272465d319e15fcc6c3262191aa9, 0xe48af0cb275af55deb825a34ca48904a47c31b5592c4afa9077d60e5e7ea655, 0x17dfbac5a26f06fff967cfef597a6da11b5bc894ee6b62e626a62e85a3ea4b66, 0xdffbd016ffd2b795226a83edbdb3c5a6f78917d7fbdbbc1b3631027c866aaa1, 0x2f948d5f70856b5f23a4338d244f6ba7e7ebfc750e16ebd1e2c2d13825094310, 0x194c9f7615cbe3eaa0f885c59e420bb89dca60fe174ea321d80435301511713c, 0x16e81a0540143cbbe662c7ae726051ec663d621562fb3701240cbfbb4b17b3cf, 0x11ef0c2d88131f715e47e9a4953f789fec78decdbeed34bc8eaa42927ea6eee2, 0x876e45a4f862901bfc620a55951802a1d1d5c3e1414308db7d548400f668535, 0x2e78d35e1dd86776a4ddaee1192c055aa8676363bfcf3165317dcc98017e6c75, 0x19f6e589ba384db3c36adae4bc034fb9a444da42164b6ef289009a2cd7d15a6e, 0x9fed90b1f10f84f6739bdb1b4b508957acceadace687aa735dc9f6ab14404fe, 0x55e35bbef7ce5ee7a3603222e09005dd5192adcd70dc33721714137221f4831, 0x5e8dc359ee98d3bb6990fd928ecf056f9bb736e0d47cec22a96e7cac65a9828, 0xc732297f8b0c272fac76944ee969930752a7bd3943c7b97e038bcd2315d290f, 0x16703fb8b02c94ade315d5b62aa1bf7834de248310887dc13cfd13fb6c2a10ba, 0x28715ac5265d7a812af4e39e43bf9ac80059635d01fd6fe40f3f1e059d7f7f4e, 0x2f683b0027994e095e71eec8475730fe227b480a6aca67ab1593ce6f837bcaf8, 0x854d9c3be72187a2f198590decd43943c5aa6140a858f21595b9a08da85b323, 0x1e3d592b71a473c85b2104acc1d8db8cb9101a3cce55c66801a0d379497deadd, 0x1eb27377cfa38a3967a71e697725c195bc1d7ce047e83d0e069dee8b95a9a70a, 0x45b9fd1e0f115801232c7aaafb5e73bc2d657c47b122f4e3ea30a659bdd9be, 0x27aefe3d1130e9394b61a804dfe2231d68295910dd39245f1e1de65a87dba6a, 0x2e4c5fa1a42064e556fc50dd7fca7b48625e4c169415487d4df0482a9b1df4eb, 0x5767cb28f1019a39627a19196a7e4672e82441be0b90523c7b9b9f74dd3315d, 0x17e443e32ab352d209d3e038d1364b24eb3f945e99a6809502c5439c807fb4dd, 0x17a0c0d83cead8ffb70978edec1bf3c4acef4a2cdcfd8c335bce42793513e43, 0x28b749b2a9becb34665e38f3c49b767f20738a481a7a76a19bf1030008a252b3, 0x1f5252eb629922c70f2fc1b5ec5ea0a0e0acee47da26c40436c3f1ffca690356, 0x29324c40ee7bc85d33a056c3fa8f44d6a7724da53ccedb3e56cc26b73358aa0e, 0x567e9bd8a2b947d75b376a9a1af17bf8bec6c9abede582054fb3ecf7860cde, 0x1e96bab6ed6f45550f2621c0adad747c2fc9988485f6184355c3176d5c11e8d6, 0x8d47dc23b1ff527992c9eddc91259a748f6cd7c1f61874a0836f599e995a399, 0x22733cdd318150f40d89d1ac142f26750809a0b888c85743af671050cf6736a2, 0x2168174bb9c45be2ee87441174a24fd41de6bff4a377803025864c5ca1927347, 0xb48fdaba88524ef8d0495ba63e8713b65af4a9267b5d62083e7b8726043a1e0, 0x18658643fcb63644520c0fa02dce232935a4ce8d7b733a9b17a866e50b3ec8a9, 0x2fc94cda5238fc785871bca97960b299ed0df05f6c6b28a3834865fd4974bc21, 0x1a54a91a89dd7e0ce87530303c12ef76244fcf42c38db35513d65c6d5994ab6f, 0x15610d8d64ba02952f4170eaf42a27cfb2d13f04d4673537b72510c5c4c3da22, 0x13597b4707657f437ee42087cf8b589042b277467d8a0436cf66ea44a6661212, 0x2dbb95e5114e740028bc5edf58b2e9fc7e3871d3f16ad0c3845d5e961a87837f, 0x2cb3a3e7ce16cad9596eab92d772f6b8afb43cb6492b2c363ec71e11f86c52f9, 0x286e8b9468bd2d392dad5d90ef65d28dec27de7147ce50b8edffeca5d70020a4, 0x166e762a73b519001d753737d7d908ef226237b077cb76ed9f6bbfcce9989317, 0x1dc5bee6477d7e7879fa2f33ba9adce878a57fad3845e7c9eaf4be54ab844f61, 0x1f16f7f1cd61d9563e064c86b508afec41d614abc7b34bb45174b40d3877155c, 0x28df04cdd7f79cb06fbf044e631ab11fadf9691e4ea5f6209f8751af58c8eb15, 0x18aa6490047ab52105dc1e60f448762461b7075d38a7c0b2ba95646526588fb6, 0x76ab8143a290792147c6a6465c9a83bddf4f65388cae8357bc6bd9400ab99b, 0x2616217a94f407053cef3b234cc11acbbd2e344b403bbd8a26f821bcb6f1f8de, 0x2296862cb9a14424a34d3a11080d6ed5bfe1bc4e0301ec1cbd4e260d81675684, 0x828428022a299903406314c159732bc0fda227a3e7a40a4834e513f3ef97c53, 0x771ff9f397469dda6f20cf1841e702c1780a0719b3f590175b394f38279c77b, 0xdc489dcf61aba1104925eb9439a4f44228d06dd4567fce1444965a749567975, 0x104470f92923d3b9dafa39eabdf7eaa23b6ff11b2ebb64a63bdb912d43865fa1, 0x14a490ce09c929505ad223e2f397186135aa6586b27cc9ccd4f78efbec993a6d, 0x206893bb747ca2504461fb24a2f72eae4cf330835825fb8ac9563fed9a7853ea, 0x3c2a738e753f35b068c6ac8171244c23fbd4f37c80ba508618c800acf626546, 0x129edb7a013029be80efc7400212cd7af1308100d34a569ef3646b52cfb06e16, 0x874b0edfee05d8cddac89e7b562f917c7ece1ec2e262f226f4d1524a1ddc158, 0x10a0bab2786cda30537c696bb1ffaf898078841896f7be41cdf30ad2517b2aae, 0xbab661c2a17fbe0221f435ba90520bced928364cac984e17a6c72a47e13fc2b, 0x2042016e686c984057a28aa2ae13c981ad8dd02ac7d4663005e1380c54f843b2, 0x1fc295ac71911a59a81d087f967f16a3a887739d7cee663fff5d6e0710cf4a42, 0x5922697b04ae608cc3bb0d9d345cadeaf4fa291de888e9b1dd32c19cb1a8777, 0x271b87d8b895c6e1d864b9cd030729e523bc90b469cee37b51144bb3b0e4b9db, 0x24aa401343e4705f22900fee892cca269d0c0ffab8f55c21c674edb9d7bba552, 0x1b07068cafe17b55b5e00f7037c9ac37ef0268d5d2b76d7271c617004f05922d, 0x1e35bad319a036cc6a2094f2a1bf2d1984a2b74aaf3e5b13a6ee30c90097cb33, 0x2ab91b9a85ce69e7bea68f4fb5b1fa0903945e039c4ddbe05eff2d5e754fc219, 0x21e979fa3a2594d2365ec70b5b3e0ddc5edb8e28fa7ec307aab14b547858f666, 0x187cffd76c5fb29795523ebe065c9c2115e73784ac6b15c596fdd68469d1ad0e, 0x18d2ff882c52b396a8c068f88c3d23f9d11d9f91c0f7fde9ef6af2180a007392, 0xa878a77de615e83c3d430f11f326b785c1ac114e599c24e5adc1d9fb91b31f3, 0x286b9c6381700288bcc75d020ea09c45957a615576d7620a0b9af2609d39afcc, 0x1c4e5ed7db96db52059ae2da709879d489a1ac5031c35ee1b6c422d9080c3f12, 0x27141679bb9260a693b880784ff5fbc5d59457b96630e0a5c04912092a4d2abd, 0x15e337c65fa58edb6a74fdbe7cdd1901b5d019ce7dd4144a8b49eba02bf085fe, 0x8256792218c8227eca89f5114f1e7f091d88a557c69b2a956fd2dc90cae3631, 0xc08d19af9c30a31acd3928ffb5a57de5e83367204ee67209ee7ed1bca5185da, 0x1919839ad91604c370f237d2a0aa98efac29246f93c24a1bd0f9d2b60709b6fa, 0x15bf65b02b92f40b9f0ea893ddbb0572f49375acb5958bf944c77ff6c3561a41, 0x122e02f2e0169809b22def001acc797b202d335af7bd2cf032e3a7c75ef033b5, 0x12075100dddb8098654e718605211f7f6a21f5176d380141fb39977305182469, 0x2dadbbb8fecf5ccdf01f73d0cc60b15f1bbef018a63f50f68d00b72d8adf0878, 0x14334ece05a631ab375e7cfe7b89fa0d8092ec0cee24c9fa3009edcd62ea8b71, 0x9a51856d49ec654f7d44aca57b174365ba5479d8714a09f0f6de08b34e3942c, 0x48e8feea9b828528dbc63cd3d811ed05ce9de018f4a4647ac1f685bb8f6715b, 0x204ba6f18193f747ff10980957022ecaa8fa4c13e7fa4e89730a76253c9b07f6, 0x79e1be1622edc5742e4f811ea2c0379bff4fa82b79fde5d0c9a0d174df130e, 0x27e48eabb0ef3b22305ab720ee4c7f414e8d4dbf4360c81d1ffae4d7683f637a, 0x15571becc7f5454e45ae416a6b3576274767215f659c91ba354372d999881d5a, 0x2e6a4545ebf7c2e44af91ca7192eec4aedddbd2ac1df4f5101f7f8cdd316655e, 0x2de19fcc78800027b1932cdf6f9e959208606cbf8a07524457492867f8f6bca5, 0x2e1ca8efd1876e209fc2d62cb14446e8f3c4bdd53d6382ca86b113f3209d55f2, 0x154b3f85eaed8b65718e733ca2ca7c8af03cf8f23befc4d7c6177ac00ebad368, 0x29e58f39555d9dde7bac3df18d8eaeb2a5a50503860d20c5cd0ba2a2cf6373bd, 0x32d32032e52103ad798fb36ef7c0681504cd2d86a12c7d937ff518e57b4c3f0, 0x281de0191d30af73105e39dc174015d65dc7ff12d20888d02cec650e1a245a3a, 0xf7e76af800ebab14281645d290607eabb062bf0afe1419133e1ffdcf70c808f, 0x27ea405bdfc6557a4dd338a2bca9819547501f6f77a588a75c014d46283f75b3, 0x570af543efefdfddab63fb05d31edcad395ac82381491a80c825c621c7ac22b, 0x27a797e0014302478a413cede7a45cd894b0a229c8e89f56ebaec4c46692bfe, 0x1dd0e283a8ef7d0f4966a517687fc53243554a8d3c7e41d91719b36bace81516, 0x2006444695987560869df6dcde2673e5b73ee5bccbb43a05c2d8be6c59979242, 0x271926392e5f1c94437afe2c2969bea4ff3f6d83ee71394008831d24bb1b6cb6, 0x1b607ed2f130580d9a8c20ea26b33b478d6e1f00cc82f00176935a8b54cabf8e, 0xb7a6e33808d217a9e55c23871cfdfe495c10d62b8b981784b0487e63df03e0a, 0x28ac790d462bb345ab80cd1670403943599b79edef17cf70236ecb1ef872cbc9, 0x2f8d745b1b4750fd2f932f7913095515c498be314210180c6c3077231226bb94, 0x2a3ef20e60142f17d2f3b82eef6135079523956d8bc684092eecb7a7d56d71be, 0x8119b14b83922e4b224697c2c6536cf772d067489d42672b988cb638c71a0f0, 0x1a4bae6c9cf73ea22739a275bc722c8cc83d91e7ddfd5110614a52d84ce73205, 0x1d659aebe4b37b888be3a7d7f23e362c250046c09d5326312d8d94cdb384d1be, 0x28e2fb92bf6da4e6b96730479f170760564458d95f732aae2406af4c03969f8f, 0x10f4ec3ad6f3ed3387729990456c9685786ede8e6e14b7c66311d47b8778aa68, 0x2ad366d90419107866504d4d34346e0a3c595de6e0aa51c805272ae1bcddc2d8, 0x2f1dc29a06c64c9e43d3379db0f2e8f0cd8f80351724d313ca02ad24c6dac81, 0x20086a672c397e65cb37cfb64ddab08074f173f37d0e4a1747b7f020652da64e, 0xef2861f4ec9ba5fec74ba22c0b7af9d458c3cd8f90c825c1f36110ca2ee9076],
    M = [0x190f922d97c8a7dcf0a142a3be27749d1c64bc22f1c556aaa24925d158cac56, 0x1f8d3a9d2d31ab32d9bdb6375170dbba89f6f8f74d16e4fd02f3675d5fe2baad, 0x230c694139416f40422d713e13c056c45c3c631b346854523970eaea58a37df4, 0x2063a461ad06315ae5992a53a14bb598367624afc2833ccbb83af92ca0f6a334, 0xc574e628f84b6ba9d17b9d2bfd4747e06dd68cda2383d64ce365927098c046f, 0x276428d88040a3e0f442424d2ffcb8d19becf3fb6ca02c1b5c61b5ddc53ceb90, 0x24bdf6101b2f223174e869d6aecbe8ea5b04a14c38fdf1494393cc6fdb3e42a5, 0x180fca184150c0e354b4b3a4a075824d4b68e8274943f4dd8b0c64eca25dc68e, 0x10726dcff87299c8532159976607633f1bc2ad24453c1bab26b726b82d756ebb, 0x607cd8ff9b889773c9eb68b8a4366469d470cd7c6004106caae95c10c424419, 0x2591580b73e7b5d5f34d9fdc0cf7fe3de7f6a18a255e4376fde3eb31dfa51d79, 0x93cff12150aecb3465c4c99f044be85dcc1eba21d429132c2260dd3d12ea441, 0x59116da88a081267dd888204fc6fb79046c3297ccb65f9e0fe0d50b4db44ec6, 0x2c948497373514e7d9846dea9ddf5755337ddb661043d6c628cecb8f55173bd8, 0x2c2729812be9ed432e75709133119cb0a14e1b6ea31c1279b7c3e495deaf108e, 0x2280d6d4718f9f06b551a988408f0515070e455ed63377e910be087fb79bd191, 0x1b1bba125505ae9675bcec7c9af579c5cc83533c9d555be398afa09cbf95d6a7, 0x17013257716d3cbae28e1c272cb6aaa2844136049ffbca05ca201523032c64d4, 0x1da524cff60b64856dc1f5dde0ff62da7b182da26908f6ba6e590adebf91b40c, 0x2bb4565893b6ffc5799139cdc151158749c2c65db48672abaf24c5b3813c0e2b, 0x25081a00fc20ae366b1fe7ea6b09e62a51f6fd377f608368c12ba4e3bf89935f, 0x1b43719cd10b60c5647c097d1fa84b8f3c12c9c475ade13b388c7ec47240be11, 0x22dd201ecbab94a2ee393796fefcca63aa54d9a19ab9c7f20a0bedcfb9d191f2, 0xb8e79838cd30707999c621621e77e69c0f433d543b79c668cf379b6623bac84, 0x2082d5647658eae648936cefbedfad2cd0538572aa6122ca68ccced68f432f4, 0x277bae2fc597a536adbe9c24bc8ee81731eddb574c6a5142c1c5a48c51f82e81, 0x30354c9f29c920c05e99d7cc747510e76f7fa69a71594a290eae7293c5a48441, 0x22f33eaee3c481e65801b761a72832908f066fe21dab5fa5ec1d4c6e99dd6dfc, 0x1c5ce77776893d48147444b9f6d66a4da29c95707de832756c739eab8e87658f, 0x2ab8edd22fbe2a1cd3ce9a4212d0efb282ccac28af4d876fc946203070c920bd, 0x26e49154acca24424d5f8d29f650f9824de82eb7887329cbc83a56ae01dee4a2, 0xbadd77f516d4fa321d1099bc1e51909001591ad9919f08ce9718aeeb2bca4d6, 0x23671c5d1fb556063a64b5f664340936dc5ffedd4bdbaa2e96205704da5864f5, 0x20d7202ccde24901d6ce2d107e79e1fd78d6c9398ba7a4996f116adef14def3, 0x1d86496995f14264e7a054cc8224900368775c3e5ac6b5f54285f4a73c2171ae, 0x136961746d34fd196025173c4d79bf8b3d1d05291c584928d97258fd5fb4fb4e, 0x75f84e9c719bb8de8e61083290daff19aaa4337454e5ba804257787470f2f54, 0x175505391c619b75530fa83e513184381e603d8449d1e070017ee8ec0a4d25f9, 0x29c5ce97710c1578a0990d862cf881badf10e4f6bde629199e803cd1c426be4e, 0x2caf86cff60521ccc5ec6e2e2c83b4707bb90f948644bfaa8f80b0afcd4cde10, 0x24f92793d67638b4abfdf48ce3b62ab5d0e1b250dc274d746f2f7d0544185b62, 0x2809dfe24c7fd7cd49b97b27150f4d38a340b60f0733fd4530cd4269b4811e4, 0x26709688150ed035f959687edf7747ee8ee946b770173dbe50390ab8c08c5f9c, 0x1e5ae4c295ad5a17e00f973f136f1230a6fb85637631b306d3705f80effac24a, 0x2310e2337e4d53c1635da18a2722178d55af583591bcc317eba842df247deaa9, 0x2084be9a57e9adb80303a8dcaffd4bb77adb6815168b36a1d363b38425437135, 0x6ed1d14dedf763a3065f27e7a46d7fbf20d2b4e86a0db86692a269767d577e3, 0x1324544a54174cf7b3cd8ffc4b86320f2319d9b88c1779b89b1916018f3fb9b7, 0x2e923ea46d492247e12e0a7dccf6620f5eea6629b7532b3af246809398859633, 0xbbbbb87eccc91d5fb07b6c55088ca514d68ddd93cf31c8ed2d2cc7f23b22b, 0x26010a3f5295bb4481310cbca5384a47af0f9905e4c76bf54b870ef0ffefa1c8, 0x751a4a4af246255ce412c4bb47fa34a51b8628f3cd902077775c8fa488e7519, 0x28d2351619ccc6fb31ad4206e2c064bf4d9b2292b28463e53e4771f10670ddbf, 0x1815e4f7b40a7027878640a6cdc4b2854300cf6fd4953c2ac2c77625ef44ae04, 0xb303449f1bf4b92d2cbc26ab34b4215b6dd7af010747a705b2a6e3398882922, 0x140cdda33bb7a79b2baa851df5ad459e7df569b9f2c3da542d3b8d5b76b356ce, 0x1d18b25aac98b282e10b5a3a74ce5caa169a5c30bae52bba280ed517f3f82fef, 0x1ec6c32f513b8f30c7aab42e7d91aecbe54aeb188a84f8ca46bd7e9741b9a389, 0x89beeb21c346cb9bc182aa2b70f853f1a2258d56893ce5a948d9c645ecbc9bb, 0x2790643a66038cce4a6488847d8d2da2eea84961f8134b1be36947f803527e67, 0x159e25e00326a76f25c1143a5be6f53fa51ccf368d9974cc6d93cce8eb81d37c, 0x2486b884370d49a003fd041e800f0a898ab61b5e947997461ee3284241f3baaa, 0x111efc136a9dfe0ebcffae8943e679cc0fbf62fd0ce03b409fecd932a8281b10, 0xc099bc68243537203f97254f08dfb7efc09de8f96d72f3b3e0aaded45e18b4a, 0x35e9ecc464cb431cc92c3356e8a98547e843ed1324c1e971179fd1ad9fd51a0, 0x2f35e921dae87f1284c0c8ae737dbdc4936cbbb03a03a5918552fe565270a8d, 0x23a72c27f4f5e6ea5325d5b368f98b40693b2db1e8ca3d096739753dc5678303, 0xe07b1d22eed54fdf966ffdfbcebb653b5dac3b2a91f50272876efb17158be2c, 0x5fa56d431d4bd09625a86d3623464dc90bd541ea41748f2026f65025ea9d2f2, 0x2d6f3e0e98413d5d6a1101b245c9e711bb2e956e27a5870784fd5403b39867cc, 0x213176bc1a04939fe7d6bc30691aabd6152ed24f309bff3939a0d91d54c67a66, 0xa5a1148dad4562eab18162b3914b64d5753e9617a5154e93f7e43e6860687ea, 0x1c5fd9060d4e0d999264429a5004c165570bd1675b09f977708b1ca48e616388, 0x129f06c930edd36fc2fb7044a6332751a2e3bcdbe756d883716cead6bc7063cb, 0x14a5ce1603228d6e6fade57c1da536659ba46d1b25566f12c28debcbedc5b4f4, 0x143617efcdbbc0d27a091f28039eba8abb39392e2a462850b1f9cd8532f5075f, 0x2885f2d44be0ecff57d92a4384edb5bebfb585bb23eae2a2ea50806bab8b7bd7, 0x4715db6d86b513d002589f1f9522f7de3b1a8bd702c167559ede97da2c0076d, 0x88887966c079d2e689a8d6d7bd913e92d326959bada59b99a653feaadf6c467, 0x12ded41f8047da3e6c22bfed3ec5bb52d027e560048db4c0f96ca9fa85e17bc3, 0x1f47c67a4325672f17b8bd1ddbd80e4e9e6c62419a9c204cc7e8821892431aae]).* from "../poseidon"
}
