// generated by tools/gen_poseidon.py
module bn128_t17 {
  import poseidon(Q = 21888242871839275222246405745257275088548364400416034343698204186575808495617, T = 17, RP = 68, IDX = 0,
    C = [0x2fb583762b37592c6c5a95eb1d06694b6c6f9dc4f1ad4862dd8f5e67cb7a3f5c, 0x12e9f46cd8231bb03d4028bf7a11d7c0e331dc05c088e6dc3d1d001da58b85a5, 0x1275cd70326f52f816a7c53fe62e323efe61a5b8d3747f6dec5837a825873afc, 0x6e7d165b57b0299d23e750a75ea2e12c9c7a16954c40a4d10904a61e8773541, 0x2f67f23a93ef1e215a4add2ecb41bef4b9d85ef9135065d992800e34fa98108b, 0x169eb9952e2a8623ef38de57e15e242df388019489e01b7c84fa839d864dcd1a, 0xf4cd404b4024ca13a513ba3156d4de9cb3aa240c683b3e0eb7253bc98c8b5f6, 0x1c486bfae3ab032ff519e8dca6dc41ea060b0ef9083127bd7c2c4e089fd45aca, 0x102e745864251ce940c67b1e2f4bc4d27fd3851571ce6813baac665e8cc0c79d, 0x1e6a6d620433d22293044ffe36a5f2a729c129cce3eeb0bdafdcd0d52bc3bab5, 0x8f3abf97ad8d01cfd8651ff2d576e3d68ecc47aad82b4188d92138bae603b6d, 0x283da3f1cf8477d9821ee60378b1c39c72428511a1b9d6683c0302938c248ce6, 0x2d99cd8d88e49e0babc84cbd58adbc143a75a26ba16f96466a2e41629734437d, 0x171edd6a7456a4c25fef8aa6d8b748ead869369f72a4e502861fd037dda8f779, 0x2fab64694369e3a2bd573c0cc383695c02a381e785792a3fabd6e1ca8df2d3a1, 0xc6155944f64f7694fc8ecd2a2b9a2370568c3c898db9531dc18c72474f9afe7, 0x1ee0e5cfae030622249210cdcda71437f28f0b1730653c0915efbfc08607c3c7, 0x2741e1a7bc6ba2cb162858c4e8454dba0d0e12dcd956d127bed071739ba5ef86, 0x301194a663309ab8d80a434822a6f6552585e888d498581845f54be634ebc93a, 0x188ad25347ec25e6a8a1b5991b3e96df81f55cbe2c52ba48741c04efd471f296, 0x2d1a0a032554c50b22699496dec487b01401f25282f587e1b575fc98c9fbd648, 0x2c47fe6533bd34a760084e8d4c488c4ca2b3bd11c22493179ac81a99f8a44a9d, 0x2fdb414eb8069b5573db5c11ede045a6009f267a8d908dbd7d90d6a0f028f28e, 0x9cebf9eb6d06fb278fe736d6ba09f93e0df2a040dfdda5fe7d9ad0fb94bf62, 0x1d55a3800a64ee82703ab1591d18adb00259d168276e1b0fad4718cbfe05966, 0xa2f6b059255eded6daee4743c08fa84dc3c51bae3179040056b3a8df38982ad, 0x17cf49c0568384e937f81b41c62c476dbbab87bbd6f4d9228b04429299cc81b5, 0x2b28f60b3ee128401dadd3d94dc96f001b9432f70ea1b3b3219d80d369921aa2, 0x25f0cfd33257de2cc32415e65ebfec4246d90a181e8145f9387def3c4c5e0d8c, 0x117c3c2b702ecc0d12cdf264fc26fb8b4ec60ab3752d20f1d2d7c440cd461273, 0xac8603ee819274a7bac613b6d26420bca69a1d147072de90aa39d4af80376ce, 0x12c3b1dc37d665123fa74a2e68ee329a42f75db42d2b1c055a71c16f04d4455b, 0x107b0f5506fdc2e774668e4192b959410a4a8e0c9e82d05c5cbba8be93d73f37, 0x1bdb9f5e2cf7aef69b26f0bec8bbd500ba3a56addcb25505c877c662a810899b, 0x8224a746a8f72cba619582bd7204b8e21d3ced7370bb7fc77ee51241c1cf72, 0xd2fb5c8797a28a15bd27665dc510ff7afbae95abd32d7886d223d1ae86ec2f5, 0x21397b45c024f6cceebbb9d1b0e43644f6ca76d2de9eb0505c862f05d7330586, 0xe207305e6d3028b5c459df6090396fe3eedbae0cf8884e15fa5b4fd9c5eeb4d, 0x1cda646c94c324f84dccc02f77a716daa86e7677c57047caa0026724c12789de, 0x3392d1c129eecf880dfbdd7d30b4a8d35c5736d71e6e1879fae2362211a7aef, 0x2a46775585cc9e5bcea482164e668818ec54fd76d9d2c7d933be090f7a6878b7, 0x756d791c7b670dfbd18ebbafec56fc148365f1df99518b634a491a2203c9e3a, 0x1682d281fdddf6f34b42a4bad0b260d597e8238878c1d7a02180a699db4faa7f, 0xba069dec00122629c2eebbe6f9842040a40d8a12327bc084ef34fd142cba2cb, 0x25d190a3c1e234d174ec14da8db903a8df0a76e91217f9193dc891f1965d1ab3, 0x2206270cd7f6cb0f4692560ae2de0eff1fad9f86100053a3ea52db32f6de92de, 0x13135b4171ad752f3906f7a0227406d8c50dcae587b5a671c63eaec0b42efd89, 0xff9a3343287ff5db495f642d32a71f193ce25650ee9a3f0b3cd70ccdf11f4cf, 0x2c5fbf86b2df75c9f14ee20b314fe4b3d7fd3519593ad8c73ace69cff6406a94, 0x1ad6dfaab2cbdb350af0f2bba83c21438a078f09d6f50a765096469075307c81, 0x26def3ab54ffe04d216d72bdf3e34345c21f29c715dbc964a70d1565224a62fd, 0x1ad802b37c96c6ad360a316cb0883a15c3d6e951f3f81b29f2da517a93297c30, 0x16963177b53b5162bf2f9829514ca1ac60196b428a7770a80be012a42eb984e3, 0x3206529b723d804ab582c4463e1d39ec579f6415e0c3c100c4ddfcb87a1b6eb, 0x1b7080e5b36b8a6782307882edd6ba9c43714a319544360725f10cbe4036d56a, 0x1f501df667ce40f2023272b32ec123854fdeca8cfa8d21fa5f8f91f4b3c6e151, 0x29dcfd2048ac0b5eb2db20316a6cb805490cfaaa7f7c52cfe325d0ee3f3c8132, 0x2b5c0a4f3ac49471deff47662cf40c2053e1ab9bd8c90259fd39958819f1cc26, 0x2bd152e7a7045ab64a942d6af902cc2995ceca3d5fa5298f10bde467d20eb383, 0x1924180fc608c30d71ca6bc196f6b6b65915d82abb6aaa66df4154088dbef2b6, 0x8e7a84a3ec9fea2c569690436e1b89f8e9787427cc2eaf895f86bef37a6a6bc, 0x1bb936cd8a92e3acb1d40861ae7ab5d7b0b0e4d1548e136e2751e261632cd5d6, 0x2f6fdb04a6ddba0da03ef70a36c8912ce407b81e963f4c4ec4a05e1c1afdbbaa, 0x33dd37517c4e06557a334bc4c272abc198853e381599a5f0b0f248d5e94d79a, 0x257bd936aa56d71b0d64ba98006d38ba85fd07e2c556443c1101deb930d62754, 0x1c1899724669efe1b1d9b17d5626fa7ea52d62b8bc93a52fa69eb4a5a0d669ab, 0x136e4007bd769d059096dce1b8d16e8d5ebd9262d646383b80ccecc3f6708e2d, 0x1cdefb056618b5286265f7d1cd85cdad945dc9c6d203b97756700a68a7e305e8, 0x13bef640af3bd68eddb99e6532e05fa787171ab21061f2d51282505558b0f778, 0x222c43b44c581faf924430fe5b1674e15e5f62b174e936299e8fa41aee000c17, 0xcb7489149d78784b55deef16853e3faf1298e78da5c3d199e4f6256eec3bc94, 0x1988cf8b0982b7ebb3c5df1be4aa097ca59311816ac1c52df87f604779e5d81a, 0x2a86243d5537e0e1bb946ba87afc04141a4f4683b73a8a642f430113b5834d79, 0x810e4767c0f83b08eee45c743a28f6aa0f6c478179dc923a730c00a777c080e, 0x111051b6f6e645b111ee16f8d7277c5736544257b993df519a1ec2c56bcdcfd0, 0x138e637186a1aea10cd1929f478be75eae3ba9088375a5f1032eb90389fbd16e, 0x1c48e87c3a5f6585c7feb9009f959127513965869f67312b5dc4ae1091d97b13, 0x1bc91e3923739d8557a49df73d6b18eacd3f1d843d2f9a19d5a544d2cf61bb1d, 0x1f55cb86d44e8975bc1483e56fdb8da7c4ae53e1ec31b84bb2da027005d4527d, 0x27df4280dc0fe9e40b3c69f81ee35b9d10c3a77ee1aa568cb99de3c25a33c445, 0x2f5c9f8726064d9ef2ae70b9c8b9bd8c67bd0b4e01e33da14eeb08c9e84900b1, 0x18039fc9add69e1c38faa320bb6a1bf0fdef44feb0935882df019920c87af82d, 0x327903788c3245da6ab00b1dd054ef0a8909c746381d36be32c63540f6aedd8, 0x1f9e9d1ae90c18f18b33386e190283cd795b00a5e700d9b450bf30597bfde322, 0x1335f2a251d97c1f4fe98c9df2f5e0b49a9915b63ae6ac860715a450ce045c69, 0x216fde3c47d44db12ca9b3890b746551e14de61d61eadaa82872b8b02d08c0fd, 0x20aea5ea277d5c1799bf056503d16e9c18067cce523655520500a4509558d6dd, 0x2c9873fee4f36a764e4633cae58d5975790e8878d02f6687fd5aecf0fea45c72, 0xc59d06a98278118aa314c0a2e1ff138782a1016592643141fc11eac458efa06, 0x20ed28a0e5dd6d3528f6ddb4729fad421ad078802f2835228b38c04acdb5cb3d, 0x242a84ca0128647dbb3ef3da25cb387d422f571171db50845d58ea6beab90dde, 0x29ac14a0b12b581d8b76b71e2197adff56879090d84e5c39952f91f2bf8c397b, 0x37dcddb2530ed5cda99b3890c9e7ea0b091a00f50687bda0b6233da0bb9b422, 0x25a8987fb6f4c18aa01d2e5429697d61eec4830a301a60c3562b61ae3290ca92, 0x1c9bf71f113b61c7bf719d99bb5aebf0cabe8712b304f1e1ef2d17a098c79acf, 0x4a0c9f59af433f472f1de92cc39d604d4ce8369e91c4df9feb6d76706d10e21, 0xd300e35270adc9e45f4315f3c3d9d939ae9e6ddd105ed4f7ed3805d29fb0d7c, 0x3b3d5fe98cd3d41d656038d84f3f63d5036ce839ab10cac86d931bc6f49c71f, 0xd4ff1e8e5f471c0cb60c4b64e25d46058a64ba30d9fd526b6df528f36a5c585, 0xe69833375985f6c99f32cf9047ed72319a78d1cc452574b160ae501f9106b70, 0x218a2da1a71bf2d9495435c13826e81bc4fbc52f7e9e76801d76efa6d1506d5e, 0x220b7c5c7df259d28ef5c87818d37b1aedd331c5ed64e2be36963baa6f0e2ede, 0x5e6ff3bb2c3c3d36fee30974381c7e9e4257cfcb175226975f80c7826601d7d, 0x6ea2130475038482d43b40d701f2e5719f8b5291e32e70e7ecb67c84952c15d, 0xe8ea3e32a39cd2f0524160913424ef01a99b490ecfb7eac844e9bf858b9b014, 0x294e5cb86e4debaee0d50db9d21828d54d2996a6d2c9c184172c6e58fab66f16, 0x1b76a6dc618f7023b2e9201816b56e04600a1f6007704757a20de7a453137ee6, 0x158b87e1fb4ee03a0cf364d7737fea5b505c8f265d85e53cd8b6ed21b8f7e0cc, 0xd6845f8ffa83ae905c90b939bc0217b96a114eae191142b7b39cccf6a05f918, 0x1e70b87aa5eec31fcfca56f01de6f0e16abd68e94016a6862f1fd84ac753eb9, 0x15afd08d9cd8f119f6b84c1bcf1bd8321bfc269f7ca4ba312f78c18cee06332a, 0xe8a18af50888c0e678a18db035e95f3e514d12add25b3129fcb0a1175bf20d6, 0x5a423b76a066ffd86bface24a69eea019d742ac25673cfbce2d6c8d8fa959f9, 0x1cd6633fc781769de49bb060222f70e764c0a599cfa63dca546cc770a8c96e01, 0xbdec688fb651a41a8454bab72bceb7b4b9a4e64e15a7759af96c3910f1af1ed, 0x16fe2f67cb81df40a13aee06cbca391aa9f363c8b6113970da577f00ecb68632, 0xd9e30316cdadf4ee7861bbf058f9864ba41949a97d80f572f4f321c5c81c266, 0x2b7250de2b670143d2795767be62b401b33ca87317d51774332efdc0d561e2ec, 0x21191107cd97ce6d82d8f24580d3f312384ff8f7c372a6a6f84bea4619432126, 0x2d3d14d019903bbebb3844951f492ae64034eff311f6fad2e7ee224df122abf8, 0xb1761537abfe52313d2984794e0f0cb5a67fab6c7de6064a9b23a9c1682e48f, 0x2648c021ea22340d9c15bf3b4de1019ca5bb2b154f528acbec879ba3060c5e71, 0x210383b9295acfb0afe0a2779904ff68510979cb8308cd4be1ba74d50f8ebd2e, 0x2366beb9fb0aefb2b27919a936a90e5178b6c920a7cdaeb2c24dafdf8eec4f62, 0xac0babbfeb05aca0bafc86a137345008a4785828aecae6e75726e52b19473f5, 0x14f4e3f929fa309ff76b77022f98355881d3a4619826f8f46f3f3307b7ed7cbf, 0x26c17a705c1fb16fc93b49912a3b026239aa37147116548af22c50b17c63d2f3, 0x1c041b56052757aa8b251c9cf93ac84f163b5029446b6b9d5f73738c71569c1b, 0x1db847af55f4dee4b04b07d8c756ded04b10c38423abda88cf955686e19b4d98, 0x14a9f6b5276ca64c71eb85421324ea22da9e59418c3f3d168a2e25614aabb250, 0x19e965d8014faa21520a879fa7062f8cd83e83d23d34eb96f6155cb698fcc5ae, 0x272983b47b987c94aa704a01c88698c287f66cd6a35b0c53b0ae248257328491, 0x179082445f7e90050f2751613a18be7c615443a5aabd9ee30dd5ae1aed141d0f, 0x2a45d991765d6810e7c6de95b751077ff3acd1a9e2ed841d4e351641b531af77, 0xce80600ae777b7577dcb0c38e3017ddbbcbce86bedaa78f3ee80fe8f8ed9c46, 0x1836efd329ede999eda029ac76933e51d379c2ec9f81106091d4dd81184b4a90, 0x23c2f9f5c32b9fc9d8a0f06a1fb94342f8e0f72871532ae622e69cd26983cbd6, 0x229a60de9ea7b9a31af0537a15fc0cc8f4e1874b05b029a17aa6069badc70709, 0x27c1cacd84763504bb9da995fb9c11dfe1de4f9b4de0070c62458dc06e6f718c, 0x226925e3b28e9d3583306111412c7fb3125a6229d56499d4ad4ce275fb945a6d, 0x2d4c3ef6b8649fd521c317d440f0de2170c7dc0ce2acfe5547c96265237229a0, 0x2e163352d3c6c204a4f39c6347ed2a1546da1c162c17b37fe5122dbe0ca38d81, 0x1d50944ab52614ecf794a99ec9d9364ac97acb173f01a5793d55f9adbea4c3a0, 0x2b4bd70b5f1f434f70f1f952d02b031723f769ae18207781b37efa7d860b6a33, 0x1da84194beae599eabcdd0d9ca29cee05c8d70118af22d79496664ba63d953d, 0xb1469c1486ad837a64a4889c24acd60c7975f59a70181bebde9950fc04b94da, 0x191e2dcf4dba410ac50f7e9aa497a5c783bffbdcc2db8471cbcf70b56e501040, 0x1668607fdf864d54f4bc62a7a64bcc84e7c9928a5bf8215fdfbf22877673317, 0x2f9967228d705426d5012c764e1754e1f43e1cb9dbde29a8da4ba862ae464916, 0x174c15148cd64c6a9c7e25bf7e92c0eed93ba9d9d20dc9d99127b9837f842ae, 0xfeae0bccd9061f01578a7a003394df020d098b1b5d4d994e9c7b01d5c2a6e3e, 0xecd1468fba5b3142d6b6a3698bd27eb2961f2232da5614891eae6fb2f501f83, 0x23b8bb2b66cce71b0805586c9d01f82c1f7acd6608ba14377052ab5228b9d2a8, 0x296c2942c041735a80687e79b03159ea0bcc9c8288bf61e932b16d9a77418703, 0xdfe7f9c9417c892a1aa425e36eabd1a8307bf14178cc1bff30de270804ac6b4, 0xf9c80c1ed9dbfa5264ec0ca7f2907b45582aa1aadc8f2244eb826f36302075e, 0x13c76a9e0ef6a2afe12453d52c5ade079c945de6700ade999d2654f00e0e1db0, 0x8d14936c51c9d5bfa8934ea69752560e7f72d33c6db682c6eeaa8d37afe72b3, 0x2bbfd29e71032bd6df3626cae78d5d7d950b8251aa9ad387baff0cecc55ae78a, 0x20add9dae28c0b6c56acf8dd8fbf8b82aee8b9e464704243077185468c6c7a25, 0x1fec96baa86d874146fecb495308b927cbc63ef0acf2481252cfee977d77a051, 0x107f942cd1f7db02a84ff410913b07ca14067c08e3cee6883c829f8383db56af, 0x20446a5488024632c1ca5a03f3e0d9927db7911b48d0ada345cf442d574f708d, 0x16c45c6ee2e09bd860204a12550cfedf1c15cf5ae79210ff56c3a067be982232, 0x95afac9e9c0e7bf3a3757afe1a59b1cd2c8a9dd0a4016a768de4e394c5aff4a, 0x1789b8d50c4f470a2040a8c97540530eb4a4ba188e058c5cf98eeff2986363cb, 0x1ae4a093f1ff056d43eb1f176efac59e64dbb0b30a17bf9cebe739ced02d7eea, 0x2078664852923af8ee05ac393bb1b71771aee237ac4bc13feef5eddb824b5212, 0x45c263bfd2c80cf563fd1dd093919e61702c4180667ced47109f22293d6f635, 0x5bd68adfe9229ea5f91b9b9b7c648930278ff9cd4235a74ddaa2989b8ed1b68, 0x2ba6147bf61fac6fe9f89f5d03424bbd3dd25abd1ba8099498cdde87a83508a6, 0x6c29c1a964316e5ff468201ecda5c5eab28e5cb0cbec1f83fbf55f911dbf6e6, 0xb3a42e10c5b32a4db4ae5742917bd2a2b6484d58d069988d40f4b2c5d923511, 0x1ef05c441e5c449dcde2b0104cc0cf09338c87fc1ef249e47219be01f8900d4c, 0x1346b974d355923f8812b1b81cd69ceac02ba2ed4207e078b1bcdd65b99c1c4b, 0x641be843dc5babada2893a000856038b0c480c73bb1222242f5c182b0366566, 0xe0ab9754fa55418576339c74a518da23da4512ef44d918f3ce7adc03877c0e8, 0x524eda9a8cf74c8aed40f27e804a118f479da36331029d8e35fa3067a8a2e60, 0x2d9cc26968b956d282d882ad26062692ad57541ae207ce90a36eb408ffcc1c2e, 0x208be81442f0eea20014d7c50cfe3f8497c3eef59d23ac75676d86e6df672177, 0xa103c791829e5f91e9143aaaf373c130be8bfc3579f3608b2eef23dda272775, 0x24c250eb5eb7b2d00c290f548f258b4206da050fcfec439320698146a687b4d1, 0x4af611dc756228bc87c791eabc9412b4dc539e482b11360dde2e8b15c5ceb26, 0x2edda4c0c8cdb6ac1f766af30f296c30bad29a7fa345c492c5fd461c83a74ad4, 0x24a57cc97ac713d122d20a0f45af32a192d57ee2df010a2abf932d3fedc531a0, 0x2b7869256ef8449ef1632686c2e4eebf6c7dc01925e171b6a3053c00c7fd938c, 0x1fc2cadc1d42598fa8af9a087df97d11564f96124486f9d36274a5290771637f, 0x1721830740eab5d3e824ca501d9dbb279c33cca46d957cf4dffd86c4643852f7, 0x65bacc3845e9e1db1666679ba9198965a9604f9d0e17a509d3435461bddaacb, 0x14b469025cbe3ae69548004a75ab8cca73e668f3fdbe5b0412149da212b86295, 0x1691556195caee6db9f3e92a740b8e3df97ba65b9401d64071720fc3f5b93d11, 0x2043760c0846ef1a8307b889640c3495bcd17b855fad23866cdc940a9e9bf202, 0x254c39a9337dae077e34effcb2bf6149dab1ff4c47077f565a1164cc16065df2, 0x16fff81b84dcb6ee8195fc9a2b43183ef2c93eba69ed01fd66215afd4118bc7b, 0x1dd3fdf493e57791e270cf1e45932a03871ae749d8b071b210c113c746ced3e8, 0x19f34c30d29e2b2e71d0e7b58975b52e5895100a642e52509f73499470664e6e, 0xe53378ab524fde35bafbf5b073f60337d37cc7bb024e4d770b478cab71efded, 0x2657a42fb7fe70f69fbdd34cf77e2cc1d9be5dab5c3df54468402e9823b730c, 0x270797e181131ae454fbe035b74c818574db4b0b14617145614bfcd17d866f5d, 0x1fe850c6eeabe8cc324105f8780d7802b35263639cc09d7c27e2c3d339fec530, 0x113b0fd84f896b1726ed7e324f037d49bcfc61107341ba50e6ce467bd4fb0393, 0x455301c9c3a9576864e5349b9dbaa24bb5a73194929e2022f9f9462dc60fc58, 0x1e78afe9e73f4fac3c0603f1a9944fac953e8649a63ab9ca386e14f76cc9803d, 0x2a2df8062cd4e4019ebfad326af75f075ad9910112c9e56dcf5c1402af2eb5a7, 0x23199d2e3d213c593ea050c5b5ad9f69f1b0cb0a3bc785927509481d9365a79b, 0x1112f3f5206cad6ea06f81e7e93f6da2605d12111f7d82dadab721a862820454, 0x2a7850975343dd2d9736a41fad96173abdf8ec955a5dbf0fef598a3427b06cd7, 0xe8f0ccb5547386fb377f8eb03ce31a2fd99637c8288acc824bb3c7e11976247, 0x2dffa0cb7982a215faa3ae587f3d0a8fdb38bd67fe497d6ec6a9af385a7de5fd, 0x38104d875861c16f8696630fff0f564ab6367eebb54aec00444abf7ca01097d, 0x2e1c146050524fcd059e554496c7365dca249831f8f3ce19154a3a4f25c0a15e, 0x1f1b007113b257163a2338f7dcd31019898bc9de8cd433c6f4d2a0d61b4a895b, 0x245d414c0213d2b34191838ece52483b9b823ad5fc60b0d1b5faa19dc499428, 0x27b89b2aeb20498cfc4ea10b7057b853cd060d9f43abda0b62ec0acb50efb0b4, 0x1c77ccc651789deb5aac8d3c633ae0d61021f924fd15ea3f64b2190692f0b84a, 0x1344ab9603108364a71cd08f29138f17b813a2e507c5a371265094c3ff091733, 0x96f47da409be2b87d72a5b4dffe768e464b9f343148561cc8f7f65996473338, 0x2a963a2d7dbf1b6648324ca5ca201005707c68f190338602106ff7a1c8180074, 0xa24a1fbf8e9ea5e0ed9b2f6f45190baf98eb130f23e3a59b98800474cce6d7d, 0x1efc39326593db3571d1f81f6e239efbbb625848e204043a3eae361b784da8cb, 0x2878f199437f80ceb6115a4cc69ad4306cb90caf7d33a57ee2c772fcb0e7c43, 0x14e714116af02eac68ca2f2d7fdc5602d14b0e3156bf689dd8af02225f67d6a5, 0x1cc4f895a494442a4c6bd0b9be44ea8d5c164ea0aebdce116bf6e22ea9c9dff7, 0x1f72d9f57cce69a7a953a9d1ead68e0fee628478d59b37fccf1e710729f9f2b5, 0x1504122452ed1fd0021c274b2f90e860d621c530397d4999625732841c24175c, 0xf84c2185df257426cc7160be00166fabf2793f17b4dcf955537842cc39ebec6, 0x26211875cfeb1f08402906b6e10083eabf34188c0f1c9e6ee6666fc7499161b3, 0x1fdaf9a5b7dcb487eb434eae3a3a1b632045c4f36727a1600da5c67d7162bec6, 0x1a82c7c40e0b33bc3be8f836c4b58c1167b9dd3b89a64a40f250fba5e7992603, 0x26a830d5593275fd09838a337dceba9d73b6b0bcde5794f3795a2c7d9a005beb, 0x1ca1b51031b54d6c209c60095eba463cf27afc1d87db60b8527336586bf5ac37, 0x2ed0b2c0fc04e99dd373f11a3fce52800291722a4f60f69de44b0be369b4301, 0x138bf926c9f7d99f3b356786eca06d03696c34a2b3e7045ccf4d35036ba8f5e3, 0x14c9004d3aa47932ecc43b64f48012296eec6175998b27d4ae9e67ac37e252dd, 0x2e8fce1dabe0cdf3fc5eebfad8fa7adc6f8afda97e429172d9b753dde4b98fd5, 0x86d86c3c731fe45726bafc5176b5843fd04dd64f58080677db1ac99fd279c34, 0x7c522aa9582313c107a3629403f5469f777e86b83ea72d506087187a8e72bd3, 0xf8ae11d8f6f426faf8516e350013be77f4892512580ed34e760da1c298b68e9, 0xba5aa0e6b3dc7c67804fdb84bc1bbcc1f844e9046a6624a910173cda4154bcd, 0x125a057c109e46c86d4a079d3aa4396af8b3e01365556a1b54f39d8ede66fd21, 0x28ca6c1010270adc4961aa8335ce83696b24bedb4bb473dfc15e82d305b95d75, 0x1d636937861daa12215f031dd31ef5ddb5d298fe8a687f1541c113dc6a6f982e, 0x2e755335e4022d7bac084dcce1498520f80ae93da97d2f65715027dc8f06f0dd, 0x71f2713b1a7933a0a20f507b9120564af7e399becb3c364dc4d4ff00e82c84b, 0x2ffd5da8280e32999e19a1717e10c89afce0c6f81f5d3289e3d5fce62ce0f328, 0x1dd14fe6365e941517ddb8fb308e3a93f54003ab4bf5f2acc7a7bc28b5133d77, 0x27101129fc7fce62280ca2c588ec157d96e5aee5c2b0dbf2049ed24b2c1305d7, 0x21919fe253784f0db396d4f9e4c77352386b9b72489043754ba8a2b1f4ac126a, 0x7027958a8f531877d1cebacf828dd8b017a125c9d287595373a5a39e58cf8d4, 0xf4c12b76814adc1cddb3af4d1ce6900934ed214203cff4daa3c327f9ece5456, 0x8d988683eaf49158a7c9ae87146068f6e1cf75455a9d82231645f7290d10b36, 0x272e74426d074d9658fd9526b8616907d5673aef4ee33678507f82bceef5868, 0x1a4709dfae34cf5ddf7006d7c290bb58c74297c8c4818fdf5f3950b54c924525, 0x22002b8b417575047a0ed5d359143aeda19e8810c53499ea4b57de86d441adac, 0x24574868ec8a4a702ea0cfa55bde2ea3bfb22821f6d88a66183527b1c7f8f0e9, 0x10d966de7e680887412eefd87d811dc46b0240886d6854934338d21121819798, 0x2ee7c7e3e8a979087deded02e7255ec067b1c4647cc714b96e1a28258d706966, 0x7029f067945ed1f6946894d66e2a8f17513b7caebd40c9adcaf39eceefeba86, 0x238f96dce22c10c9aca9a1982ee6eea87b7cebfae5a387782b49a62fea5aabfc, 0xb46866c52482fd492baa3395e0a2c90470b402e538b3d8d0c50722e5621dd1d, 0xd766df2a110efe25a3d9c00709cf5309a71c3eda799419fc3cbb0f69cce2ae6, 0x70143b740c54c7108f5f6183ce84371f770750dda04ba765ef83bda3fb2d5ee, 0x1700b579f15e50c2ad18cf77dddd549da000a6c8390de97e7ed0d8e68dd77d5c, 0x966a4c76701d09676a086e95d90becfa07bb8034642244cf6aef00a540d2348, 0xdbefe8bef0af25598f5412f84e00a3dd4e87de653075ba0c5da7ed783970bf4, 0x166d86374c39d7660096c87278e27024ca839197e65cd2f341e7a588c5387fa0, 0x251583bded154eb2396251754588712d0e1b78c29cfd44b45f29a9fd52ceaec4, 0x104fa2f361cf696082c5fced47e78a75f39363142e877b3d82c55c686e52627a, 0x2e937bf849309765a350ed8791a96d859a2037229bb6a652bc6aded264c7c5b9, 0x2b1d9ff7fb70883508c56021f57e3f9ea1dbac6ca74116b17ee926c1ec3190ab, 0x5f6384c19be9a2806e892c810917c10224188bf43f041a4e9633f370fabcd9e, 0x2ecd3211e05ef27a50e8cebc42ff0b183cfe21dfab238ea9ef76229b3f109303, 0x134cc424a26df27d06dfecdce2641a01bd102e7ff1a079a2f7e02cb5c04d0fbe, 0x6491bf6df0385099926b322197f0366b2757d7dd62ee3c2a04f9b4c9534051c, 0x195fc25a0f0e518936af73aebdfd96d9b38a4353504b0ff8c1418986552920cc, 0x21d9052cce28cf6e4e94073f863ce8edf12f02ec3286237f9d223b6239666286, 0xbaa8f730ca31f03feecfac34a96c3ac7af148079107bd1d17241917917321bf, 0x25581389210f6dfc774d3716e19784984d93837f46e519dc753d36eb2ac7ed3b, 0x24e00e2fcb19f6424d723a02dee50396b779a246da53a1a240f1bd889a8970a6, 0x83d4854b30ee0679d2db410b207e0e3a675788631c5a356cc87732960134c7a, 0xaf54416d73433ca2ed2f161359272770b6e3009381d71298f8223deacfaf11, 0xd86112e0b5ca938fa7edbeca9ec16e9e9eb4589c77706ff386b4f121fff102f, 0x222eeb0b16a9b7ed31088917ebe1cd3de2a51f15e1e39229a08bf734fb2cf54f, 0x26ab188797afc73322cb02f8e79578e0e296f991bb2bcfebb635d1212116f43a, 0x189a33095624a9fe843ee367eb23224db90c8d79614941f43009202bf3f7692, 0xcb116f05c5b188d660a15100e4e53213f9c91a2c7cc48497468ee009204155d, 0x677167ba65ce31ced812c57211602111fc3a26bbe9226918a7819c94281196b, 0x2038709e7cfcc3a1fd50ec84476c90870748ebb30f6431bd136fde99cfde252f, 0x11304b471f078464bc2004c224dc05a4c4ec5db0a0d15f324130e12793a7aee9, 0x25d8e2ab7f87aad379da3e3eb7f5d35f297eb80c430c765adec7f637c4f592ec, 0x252705f54d55bf29b30237f8d12aad2b21b4a5d3a7aaae982f7cde3da630867, 0x1db9ede78af0ebf26dc188f6fa75663eec8f65b6c9a5ed38fbb3421dec7d7e44, 0x28915bdfab7235384a0052ed73839f3b6600a7ad6328222a5b5cf6e833a23778, 0xa48fd9b0e00279f51f240b4729c1360740f003e804a09579e28c033c47d5b25, 0x4aa895e8c124ea62643e1d47b28162c404aa390fd45c32f9ca00c080fec007, 0x2f6ff2c3db97147ad04594d1858994b416f98aa1243bfb9deea65c109df2771c, 0x24f4f4faf7ce4f405a99b997acbe94f4f75646fe7d669779737e6aea7a59318b, 0x2c6de883618f61bf7f3f7d8d27a607d6a7c4477491b4a505955312a1ead3bc10, 0x84e6d4e3821e133fb91ddf17c52a3c3e056dc5211d99c507a5f8eb010f2051e, 0x182695778ac2503bd5ab232f7a06bf670a950fab0f52691e66d85d678f7ec4b0, 0x160333461efaa2ab9af0c831084d54e7669d8a39c5cdb67b2dcf41d3c4fc5e05, 0x2cd141426aef83b60baf24a91964fa03a4a15a956db96b9ff8b1802cf7886907, 0x1efcf46de40d031f8433503f35b57e7e05e7333292fc4e87e8cf690167176023, 0x13566534c621d806ed162efe86de13e99f5ba0b87b7662bbc7b558abd47fb72d, 0x13dd0f3e7ad7091840f0fa46df2804297a60a00afb5cb4cade62ef93010b907d, 0x63074d64729807274b9582f5459fa5f13a570aa0c8c1cdf970e0a676cfc6bed, 0x2cf0b9463240189f91b0d0081f1fdf117013e3bbf66b2ec20768b6196ca78a40, 0x2414bc086989d9c5a4b4389231672e10670faa0fa46393ed3acb8f7592d53cfd, 0x35c375210c40378de763a3a1ca80b6f59ee72e60bccdcab9987567607a7a661, 0x24649b22485d4164a5849e6fe09e491800bb975c4c18dbe076ec4c8430944105, 0x28ff30154191e734bbf8835086d026958770f58c05adf2ab87451b0f5b6a5b90, 0x1333e068eec2449ec9f3ec2509033a95eee7d93b3e21bacbf131f353021eaecf, 0x1aaf01fef0368da6ec25d420df62bf7fc238eeb68f9c01efe080abd921969992, 0x1a8158e9d6efffb3f770430136749c13ac3b57b0ac67b7e790b87e4c9533164d, 0x267a4bce46448d250fbc476240bdf28082bb7b3fd4fdf6b4959d202ca5c22cc0, 0x19092ce179c682ce654858f33d7db753b9a6864268eeac3e01b9c7499d669382, 0x2cbc84334505141c85446a368bdce6f43c4c73002b9c7fa2755bafd3c913cde5, 0xf2290d7acdc26ef20e0ebf6c790b226ec27618780d69b34235db806c2cf7fad, 0x8997d8fe98a3b07b245abb1a2ff924e69c94ec512dd8717d26d913976f7009a, 0x281257a6930442a04b62b72ed85e06c26510ef3572b9d76a5a47d39cc8ecfd19, 0x1bed3ef59d524fd38eb28351acd8928fe6837cee442cd4128e17e4ceabf5c5e1, 0x2450c4222f921391c2d880d0549a66879b1f036e6196b0ed04b6f65d7501ae88, 0x13cbc816452f1a7859c5a15a87dea7c7074b06f50623b8d535ad31f380862014, 0x2a447dab60e9a356de04e09237b0a5e823997072c557c28398dc34349ce6b103, 0x403afb29d58bd7a9985c47f8fc5e230619c306bc3b9e5001e5641781e2a2767, 0x1f1b34d74c7ba4b249e9ed1a403edebaedb7cdd68997d769702c61675cf9fed, 0xe5e3c54edadf35d98492c46975dbc8e2ff08c13858abe8fcde5ff740182b642, 0xd63ba660037b09ad891f2a73ee687cd93fe26acd102f90ad5ac7fce6e3cc24e, 0xafb72ecf8fd02e169980cd8f4d692ceeeced7f54406a649da0b542138177506, 0xa18d18293b53b043057c48caee752f777ebcbbed6cac878ae6dd7f823daf887, 0x341875860149b8023899da549912f6ca633d0cd64308178b5af305831025c9b, 0x1e74f47f430e1d9fe4edafcf6484293d475dbbd32e4db7afb109344d6b217ca1, 0x1393ce303c52c2d727cb4004446b8e2ad22c18f3c6baaf7f0b9807b4dcab60ed, 0x2996a98688b3896b12bf84463004b1e6cfd41febfa82a76c39829c00a5909563, 0x1101278844bb1ed1532a88c945eea3f1771c0b7177d9e90a89fc14e15735c0f2, 0xff944e58495c3facf9e8bce3ea7e63b45e0094453d6de3a476f34f0bcb7f076, 0x9685892b1647936a2d06ec2904235a2a473236fbae0007813832b3b28747a11, 0x2df959566a7f74f07a6d8db0ee48cce33d83d76d83cdfb72f8e601cbda8a619f, 0x1371c30df84f6fa17717dcabf21240b1f62b6a0f7ad88ea974b74424576bdb2d, 0x63df78a5d2ae65937d865fb6653358f110a1620b462221fc53722e3e5914bf6, 0x6943c3b3b93a51f75b9ef027e7e489c4031ff92dfc9e6cc8c144765ed455963, 0x258a6301e1d4ed86f430c121b8a7a02ac41a45310d6eccfb1e25c50e144d552a, 0x16946c160509bda0e6a28b310d1e3d465496f50f331eba12a3d335e80d02ceff, 0x228a377dc063ee95ea9383203e09cdc44ee8ad4ce4a3bd6accfaeeebcdb3afe4, 0x29d562c833355a13246eafed9cb816b700e432688f9d0161eb345f93c86d1c30, 0x6bc32e8519fba6364af48c63d468794e43eaf044a122f5df7506db732811574, 0x5b5f5ee4e1de0165485ed2e889de65244597ce9795bd1302995d6448b7099cc, 0x228e0f6ae75902b8c6f351e3afe911852fb72594dac6d84bb2501f6c1fb62b7b, 0x1adee1a357f9bd07b9aa5d5de6c1cf13ab85e3c637572c4405180255a6b262cb, 0xfe8e230f7a653e70d7e66b68cdde3b091c90bbe3392ed70c657cc18529c48d0, 0x17f2e3b7e2a5e959cac4b2e2abd5b204ed1d1da788ecb601e209e9135b42776e, 0xe5ebb8d9ab7b2ecfd74f5c7d852fb72eea1d29438e5849d60c3be110dccd77f, 0x1176ff60b09a930fc378bfa5bfae137d7e914b2c2e5d41718bbe5987ea4204a6, 0x1c289e2a8f4efc5bf0272bf45012e7c53b2ea259353ca5fac13452570f0ec30a, 0x897085ca8062df434a4f9526f65def6b90df42244485a72e23b62dbc3ad4b2f, 0x8702d77c6eb4854ab9a0dc200a9496022381e1fc33606f8a276cae0a0086edf, 0x2d557de044b0ba9934b4e84c14c2790b77dfd73c60964fac43c12834ae160236, 0x1b7c71b547295485251a601e795a5be291ec9310d09af4cbf6c6f1d9d97f0759, 0xc2ffa9d08d01f7863acf32741e6f40f5a614d5b5bc9680d4450bcc3ddcfe7e0, 0x16b4df7609480dc496c9c80c205cb130dc75a36bc86ed397537fb8621bb55aab, 0x278870285022a8e62c007ea1a80dfb983108933916474d70597eb223db38d120, 0x12d086f24270995532f5e9a5fe0f454211df6e0d70a4f5648dec1532bced0822, 0x14051b5b246c70615818e460072a6335353ed0baafee7ca27dd1ed323a1a460b, 0x12b64f3fb3491740234c4b2a9c22b0d3615e6409374dbd51c68480ffed83c578, 0x1dba77c37155cfc3a40e60a3cab22a65ed3d0b3b9e14a088da0f78235f378c46, 0x2d3cdee7c20e981df78414afbc11ac0ba5538b05d8b3ee64e93ddf79d16af761, 0x1e72ec6459044a8545cf04fc975cea4396932411985f63f69cf5abfd079ea339, 0x33de42aadf342bf63b8dfa88f1834316ec0a1a2031fe6b990b8939ead902367, 0x1033afa420fc311df873cfa662b1aa74c3293b32fafb6dd8b50957b40e4538c, 0x3246089fc735a2a10eff81988dddf6bf6cb36ca4c94e5f811d34a138af7695f, 0x184378877dc29eac96d70f2c3c23d03b15bb5cc33ef46aa4d7d8bc7436e2e133, 0x24a45709cbcffb8665e006e6da138718b961a11e5f833afc14de37273a14fab2, 0x15edf9c56babcccfb597723c4e2ecc4e9f27a6622c161e90f6aa189ccc28c479, 0x24a5b373a41b6284b58dffc853e57c1e94dd8018bf6155dcf79f539ad38f0588, 0x212667816adfb3eaae237f4bc5003837247ff166cf8cba1fdd43244f34aa540f, 0x1ef893f637158368e9a96b7893b13693d1a08dac4f4523108b0a99cd60d627e7, 0x25d14d1d9d039aac2acd4d2dda3f73a808846aed7159817289db8ff01a512c2, 0x9d18709d5cd1e66a30a5af2a40202a06e2c4b6456fbe28c5509fcf8f5010097, 0x10e49e4515ab23f11ba99b0a8eb2b9c0c00ffd31e297cc0ebff4b70a19084a03, 0x120d8f3de534d39e74a6866a095aa3038cd5a8a6da2c8c3af11c6a57878fbd27, 0x1086a1c670c0b38a4615e2b5c9da452435b28cb618a755cb8e4d6cc4a185e0d8, 0x143da4f1e56c2995390de6d5c203a81a0f8534ae6fe1b548bc06ed66eeb71b82, 0x3f67f0c682e74186fa8a43185ad1058986d7829037c9bc4efd13303df2565b9, 0x2ccc820115f173d6df190637f860f7559838d62da484768aa9147e38718fe4f5, 0x16c78c003db17ade4964026d9c805f98f6bcc18f5ab084bf6db478324b4cbbf1, 0x2ced73fefc2ccaf65b289e9dbc565eb7118f94a1e55b431c176659a4e20300bb, 0x80355d267446e657f4fa48445d6bbeb92bd0722224b62354102faf995c8cf0e, 0x1d7b035e2e3447110b569a0a285fcc75848e9edb05f260790b1842827caa69c8, 0xdef7d6932196574dfaa3bb93e455eb3073af3c6f5b23510af304e44af9d45eb, 0x1d7bee97b83a508aafabcfc215e94be6c319c91a06a446efeea5d2eb6433d01f, 0x297df20f1168df352ac2f6f2eba37c01f2e1dce8c6c9ab6fdf4bd4f73a8aa61b, 0x2704da6a1722356355503d2c68fe1b4cc81c7ec8ec79e60293c6ebe2cd0fbbe6, 0x2ee1c93621569042fcb5787986b162c7713c3f46ba980f84c35605f39c6bd09c, 0x143dadb2702943f0c1ab5f4dbc544741271b5feacc410778391bbd31df27d57a, 0x92b4880d629751c880c52a583e7c897b96f8e4017d03615240b58b099710347, 0x2dfbb9e30dfdd6a6109ff6096fa7880bbdca630af585a98dddc26c3c0ba06b1f, 0x183f5efabcd0bb3b5bcdc307a3000408ffa227d7ea09d1e46728b8a41dc10b1b, 0x188ec11b8e4279fe5d6885cae68b47b0e2f3b1b1491823d56d45b7ee0b819bef, 0x3b932f42f057452cf7e63be1d791df135b1203a05a1ee87181b79569dd9caf9, 0xf004e411866bf3827ee877ff26b9030e8234af91cec1abf4b1e63ec376cb4fb, 0x7b29a2bf26c3253559ac91866e18bd24231873c628c6c54085020e9d94e4e06, 0xdd493324477dab3fb82ebf9bb5ecb261b16053ffde0780c7a103f5224ed0d9b, 0x15a2481d9a02f0f660f26f731800672d4f01386a88b39a481300524ff7d6d77f, 0x20fca8de9b1ec1b1306069459134385ec736ce3d47fcfe31c9036de466599d5, 0x13f13006cc21c4413d126b903430c7d0f91843fcc8ca9d6f29e088d53e6d56d0, 0x1562270321f351d19ff030cdb1061906ecaf1d545a842611dfd2f62b517fadcc, 0x2a1bac0d137627714a64d25cff803b56397eb7c49f916f212c325e36e099a21b, 0xa626b8413c43716fb39475aade5a5fa6032be65870a14c7536db969accd9f4f, 0x1d8614a7501b8508b972bb3a9865d7ebe10da1f7ef9a4b7caae2e8dbeafde38, 0x2c4cd54213bc9c118584922573edd0979687ffe60194ee617a89971095ff1712, 0x273b67e44bbe0f36e03fe1bb7d026d3ae18d74280ea660f7eb6adebf13624370, 0x2345edc3a494fd086270df8ec3337021bbfedb313e666ed13358d808d7fb96be, 0x14e3240d400b2f37c462731eab1abfa3121fff4452adf8b8f1ea2d7dfefe5b96, 0x26fed100c2fe18afd4558db5690f1f5c1ae4848e45f7984b975a127b2c3e43fc, 0x94f0c0432e3dd61dd59f78f3cae7b2ceacc7ea52e1e429618132d2993561b3f, 0x1b69528d1cb065ea1bb8cb4ffcd6f727a43c184998a8c52289713e52f1a4f1a, 0x27f41e553f9d587a847aceda9bc374ada23fd5a31068640ce8851f2ac9416b9d, 0x1e78dc5799e31ae0047ec4338ccf8b53635cebfeec7de05098ac9a49f51b4e11, 0x1408db23a0195163f57ff57339bc69577b96aa7c9f5b2347cffee7c6cacd3895, 0xa45ed2874baa1e55853ca869d88ece0b18f92752a6a622992f2c40a80fa1bda, 0x8c69e11628ef5f25cf5aa9a86c58192293eda7b8038b0fcdbe9ec43a387b38, 0x4418bddd1b637b566e983af7174840f3116feee63ecf811ba3c183208b73457, 0x215cda6478735eb143ffb90674fcf75ba4d60f81f2e13ba3a148ae32f72d4b44, 0x35577a54e516696334944d355f8f5f19cdc0006a3d8f19cbf52a315fca92657, 0x14007e08f2050a67267adc8999afabf2df408c524b62d66242e07bca846b734f, 0x1d34dc16f79b6e30ed5a661cd37c19178e1b9b5ef6814104b0f01b3042fbc1f1, 0x210287383f8ea9d022330583037c97c78bc6559b06da998d3486c784518e28f4, 0x24f14e85290d69d501a2347570720ffb805edfa3c42574f10c173631dc15a933, 0x301162024bb27bbcbe7606f50fe7ff61f9ef6fec6c70faf2485d11859f59249a, 0x112ec7cf1ab77ba88df0bf2b9c9adcd5bbd3904798557b1fb17c9f09aebc0ad, 0x405e5888854684398caa0a447f1077f2294d23c4fe188bd1d9024b5c786c9e, 0x2648137d6f48e92e1bccacacbe308447399f63583708346e2ebf987f397c8f19, 0x2828ed7039303cd2ab1ac07e24e2ca8df13562f1974b2c9f2b3fae742eadc23a, 0x15e6dc583e4e1f4626d8699910170faa3235d54d4fdac2480010cbc4383736f, 0xe0d901f126136db8ae40803538a6e638a67be495a8b0da6523dd152be24514e, 0x15f1d6b88717f376031f4c9db9389922c83275af3e65bd06f1639457d8aea6d2, 0x2d4a2d4bef42094512da25f1fc445197da4116cbf1a5f19deda71329b3fd3cc2, 0x2b75516b90c831875a52efec663b3ac244300a4aea3390cbb79cab04a41c9c37, 0x22dfe7ba1a8b83b4ff9e598e4f853568e49212eec0beb566cbd83a580c913510, 0x17356d230f9da4d245e95d31939c5468fd6b4fe1d43a5e6a23c325beb7818e85, 0x771aa5a01cb551d674ecc77a4566d30413f3c6f3f98883f2297bb2af901700, 0x2038c2bdc57d92fd22826fc76e6d08c2b9f0dfc5284fff92067ca7711869f1f7, 0x1bbb2d783129d5647dcd868d4068b4cb291755342f4d189667cab73f58913c54, 0xcfa3cd62a22569bd9f83dac75982f5d9ae73f6d11e945db4f1691e47d690cdd, 0x20b8bcafb219c0e8cc74c564c365e7f1aadcebe9d1de307a7d8bfebd9a59448a, 0x133f8f49324ce55abe13c52065b9fd5525d19ae1fd95c968400efc2d32a3e559, 0x1e393e2816d184bb6fd0624f0fa7d0be2c767ce0cda87aa2235863564b6f0ec5, 0xea9f996da777929697fd9c0b7078128e70ace44e0f9c5bd2b408096ba6acab2, 0x1f998239bb13599db25c562143e127d87f7f7a94d32177ac46cceb87cb9902bb, 0x2731954ff3fa93fe61134965d3f2dba0bfaccfc91ea76ca59638d2fa9c4a7a0a, 0x18d07a9939fafa512e2db3f523d1cad5de5ee6138dc2d68c8ca06d5abb4ae655, 0x21c5122f00f0db5fd84ce1d7c2370e019fa8269fe7631560f30a4c791f228e0f, 0xf94cbde49d7bb747f1b7a83bdbc3fbbacc95c68355767beed02d68f444504cb, 0x7786585577d81638c8df6c6fbe94fd632f7ad7e35ceffbe367e9ca3ca33c165, 0x13899fa1b41f12f9ba9d85b72ba310e028736f5200293bc15df542c1f3fdf3a2, 0x1a3e2b4a3410b810d0d8d8e91bc0abbc5843c90e1f196902924901e4a423dcc1, 0x24693cd5298886503438be685277e580caa0c61090ce7de0e7d40e49d12b9190, 0x1cb88707d385048828ee4a4ff4651d26b0c6ce4403801b70e65d0364285bd25f, 0x2d5d8e36c872f5ba089905e748b00c1738ad5103e56334250db8c34f89f4cb58, 0x1df48fd041b0e7762fff784087064fdbbbaf29242a35bdc6a24c764f1201e39d, 0x21aea18d65264f486c986b3dcde7abcbc0ce1f82418b6fe9dc420ef728f9a5ae, 0x295a978d6b1143de34ded6f81e2af50bbaf9e93a3c4f98f07b69a912978218da, 0x4f0f0b54e2f9add517c53f11de865a6ce34df352d0c8b7b0ea8fca0521a3b5f, 0xc4daa6bd8a280695ceb773c23ea936eae30b9aecb7d29732f3d005e8f6be875, 0x275b5f950e56bed013209e34c98959fad51b2bdebacfb151e2993c8691e1f19, 0x142e622b8eb094d15647fd69116f59a527d8984710ab8437379206bc95bab064, 0x9acc90fba52574235b7ebe94b3afb107a68bb7ed6d60b21714219fc170d55b0, 0x26512b4e53591f187109b2b4f36f4131fc0bcd1cc606b6853aa20526b9591dde, 0x304cb4d258b30a6798cf5e3fc86e491809ca72e944066160a27ec60c6687faed, 0x9f24d8469717a2bbdb34740942cb66804ed67d932b768c87bb6b4ecf354eccf, 0x302a604d14a5cea49d0411d6d669797578de3ededd4bee595109a509f2005f78, 0x17057a92fd82f27763b98c0137a3daa6aebc82d1ee84dc286521c4b33ad16acd, 0x17c98c3e6b14e5c38bfd3d1918e7b32d85d4324f16e43448992ff12bd0063a79, 0x2d85baa692bbe01ee8ecfab8e20b80b8c012c96d69f694baeefc253bb98e49e7, 0x22a713aed1607d36caaeb46fff411e64c1bb3160db3f3431facc07969dab4d4e, 0x2f7ae4d4acfc8497fda4ac0d082cad38196f265c86089235093e1aac53c67e8a, 0x1afd52944628c9eef6a4d5cf21a9dcf6fa49b1da1fbd9c97697aa50dcd6cf712, 0x198e874eb31875b5796c3081424da73a92708ecd74e80eded5c8ac492a8011fd, 0x14ea1b78ec6247114d4615ce0d11e280c33b0a1fbac636f55f043a5ebf04ca7, 0x23b4797b3bffb21db4277e4eb13979e6774acf0452deab3d057ed6c0eb5f1712, 0x27c85c1c147076cd777f41b99d2e55530d4d43b341121187d010637cbb66ae86, 0x1f846837097639fad43c0f406a4029a3ab6d809c1a27c61e48b15c1b71365f1d, 0x26b338bfdf150311357f806449ee81b2fd29e3f2f43badfc7848948dd7781af1, 0x2ccc6e79733745f9b759c1eb5fa3671dc3d99065e8413d653eb24837a9bdc544, 0x1b7fba6bd285b5ee75e195de2bbb189e822ded19a2867c5323c7f6c575c198da, 0x184a5c858586996f08ac5cf5b5f67367d91cfcd71b35eba37787e44e7cfc61b1, 0x2391576ba9118db12874e5169e93c729f8aaef71d2dedc81d283dd953d59e0ac, 0x6fd613bef646afa4f1d57f7128518f83350e5efc0e41f8148d2ebbbd9194058, 0x1ecf14479487ad8f8e5e4677f73dbe81f3ce377ec7bed9fbf0c0a0f16b912718, 0x6fe9870f03a8f83498e73ecf2e214532b8b114a14cf3b342d7623e9d5192b67, 0x4b8da7397a519153f0756f72c9b62670ed5e983c02a4109131e7275d7f2d1b3, 0x2b1c40fcbdf7d9db85f818aad7fb333b7249db791d1f65f43f529a77e3118998, 0x278fb21e4cad110091702e5c8cdc84425bca088286772f1817308f3109787057, 0x177ef03c343328defd5228df7d4e44d4cd23956dfb134448a485b196572925b4, 0xd201654bfcdd40cba52e51bd419c0f95c12101fc1063ebb8d81554c71c16153, 0x3b21c4a37026ac5d962119572d8bbabb453343f75c0d55c740aad13968d6e09, 0x72a52164e3175f63504fbe7a0e02509d050e5552490e23d7c9c8242fa870ce5, 0x30d0c184b743e3401114b1f395b12fb6a962191c77c5bdfef165977cdfacbe8, 0x24ba3bf7b9134803ab3dc87fd9e9c27f129764f91c34eb53b557ef3fea87a39a, 0x13e05d5c4e1dbad46885dff27afbf021f7e1bbd432d0a9f1a3dffcf3300a7a48, 0x113a2fe6e9019e83e0e898410c35326c10cdd01429acbb1fab5faa9cf474de2d, 0x78aebc8ff29a02e89514e9a5beb5690b75e598d2af2f9016bbfbdac02f47d17, 0x2ddd3bdf04d7d1449c12e60030b971b44c6577ab560f9efe8e867282ef1163e9, 0x220faf36a017fefd9df4282a946513585a4f6cfa5bc5f9766861fbfa43ca18ac, 0xeb6a2ea9f6827065fe666ff3d1318280923a634f91efa9e43a223060257881e, 0xbe9458e9cfd6cc6489d7f20d1738f3e519b5c22ad15352cb444105ef4b89a8a, 0x1925d24635bfac09431b17383636f69f224baed3577628de33d1a282cd18efda, 0xa4098894729d44bb96a4b265cf98090039eff6cf8b170ce3dd6f8e42566dd97, 0x19c9d480ef38aa13105b574a419520aa7d092a68ed6e76171065803da50482bd, 0x1c0a6c07cbc0d6ab894864dfce9df406b04bb0c3f7d7d4f00b3403551411c07b, 0x1d40bd40cdae647cff38b49289ad2cccffc669bd94a6aa724fa2fe232d4e6b02, 0x28ef2d4bb34fb4ff673169aa1cdfcbfd7a869974957ff7ec7bef4c731dbdb666, 0x1b2d5d6b171b0148947d55f61b069828285670f4b843d29aa7f4493bcc5a8923, 0xea0a67e504a55e07fc868ed85f3cb24431835409db5e6653cc31fc307d29ebf, 0x14a99bbcb8fff06772149dfbed0103dee78b5622afc0d99ccb2bcde06732c042, 0x28f711676e8ae8c2443c3f82a8b765edc17cfc6ed254b7d2338f922b6843a8e6, 0x145eefa014a02d9cef3bdb305206dfb1dcd4e4b8bb91513eadd1374c38e94195, 0x2379d29d5e9c69d6fba8ca261656c9d0370235a378f77cca2850cfb3d5fc2170, 0x2d12ce4fb01ed5ee6c444c59583cd1a26d8e745443a6721ab48739d7b2685e1d, 0x2dada5fcace74d74dbebe88dafd754b859989b09240b43a46e03dc6fba6c8f45, 0x2e23386575e2f0f1f97e4fb08438a13728dfd5030d398192ffaaa1fc6da5d159, 0x270d58901f888a0d3331391d74b72d35fe749849add6419cd747d6cd67db2d52, 0x29e48b157cb407f9ce069d0f80a4537cd9e87179d9eecab350c78d6990a4e0e6, 0x1d15d50631be723e2ce8bf8b559d975af370557abee33b6514ced1bc7dbfbf70, 0x19a954aa55569697082d97017cb66cc676d03bed6542a58a2237e7483ae8e3d2, 0x1146d8cd42e6e1e47b51d5d80660d7e17ab43467a2a5b5c8c0d271bf92837151, 0x281a3bc2877b82e9a9796befbe8db3536aaff12bbcebd91de6887432f37bb44, 0x271904d6f98de7de1c70275d3e362c3985b2e7ebc073ae59058ac2b4e71394eb, 0x1b07f0f881d60b7ceddfe4dff878fc7162c92d8c237b5241017fc0a2aef43881, 0x2bcd2701a63735e73b0257b73d63ac7cd7792cf96ed0a0fa3ce3bf6220835aeb, 0x131f25e8aa9663cff8fcdc4f325434fe144056fadabb01d4effc020148f07566, 0x1e03c62451cbbfb82a6a4c851368b9a9cf79366be4c7937ef16e890bca6cd6c6, 0x2a8d3017f2b21a818d3c8c932566bd1baaaa7c45600baa0990aa67a49309cb32, 0x174c20e110d106eb038cd9318d46691a685d777b71d8852d45602462ec5e3a4, 0x2639df073fa32789d0e9afab0f34422488eae06fd75ef55995e369e1b15dbddf, 0xc170d68f133125763ba7714624b007475fb6787a1b17043926963dad16afd1d, 0x2fb299340483a1739b0108e631ac6e8917367253a76b9e7993b1aad9f694ec29, 0x2588cfe421a60702216fa0bd567cb266af1042923bc6cb57ed68bb90488f35f3, 0x22c8fd4638564b9de90ca35e661965ea6f01f37ff615ef308046fe136ee5f01a, 0x17cef09c980a80c4e53d7284b5b2a10dd1cd0ab41260d33cc19dfada88e5447, 0x1d9f0a3022c4764f9e5e6404397bbf44be049e5185cac48bc729ac948ab01331, 0x1bbf6b14ad3e7666bd58c7e9750f7bb9f6d6f70c4c2abe91e20fc51cc5ec28c5, 0x14c8d23e7b15787024794dc33c58dab8c117b51b4588f5ec5cd8c59f9cc30dcb, 0x1b91fc8e62a79e98f545cda2608f29a4169641a3f715ead78bf494822555f565, 0xae904147620bcf04a4b4a9679b2713fdd8cd50296d42ca318548e32b81e3b38, 0x166f3e332577ce10c873891b5cc742e7c34bb4d62b5773316688e510f4d82b8b, 0x141e088bfc6e007a2d82cf717954720cb29b97b30c8c8125d5f9b46c2e26621, 0x118e0ee4202d127a0577a6eea29bb614d99c1034fe0e2e7465e91e97c837aa29, 0x2970b8f31d9b9afb3d3b912d90594a847ba0483dda4b0934df1278ba14bc2ec8, 0x2f4a5eaa4b7aff3fcd06c9d68fa2e32e4b4e629aeb93eccb552c9f96fbda3ddd, 0x291d6cc7e8e5152902f5b05c13002bba95cb54657ef393e92bcc23b9bbf7ffc, 0x2e221aaf4070c2c0d735b5b0a52099c6594d38936914c9393d8ecd2327088c42, 0x103d669fc46b07aaf6cc4489e85724181503000817f8c1fb5d471b2b36179f22, 0x10dbe373ed70674013a939b46a07ee4f8c191e3fb639f8d0a781d1ffba82fe90, 0x116229ba1cf580ff86ed006b9207036e69cc0f1b55d4088ab34e01a3f25fa531, 0x179bb393b9bee8ef918a2ba2239ff1e6bd63d6d48cad4ab6f2d319f2999be4f0, 0x257a8dd0150b1254b585122987e3bfcdde7f914d374d2bec0595c46afbc0997a, 0x1015f7f8871dbab0d121570b0ba6417980a2d11b292fb2a37ac74c8a6e198dfc, 0x160acf3dc98d9d1ffb15eaec2287d5cc743ef3d16fb8bd40946a24633d23825f, 0x63c73552b19fe6f68e9df9438a581827ece6c31520117c2353c67cf0714d5b1, 0x3e8c80daf887938cd355ec710a9e32f44c47520aaba5dcff9c62c4bc0412a82, 0x1ac3f781cd9676c41ea21fd2b7cd3f38cc795eb6ba45a525b291c66b8ce7ba68, 0x189d712149326d71b0327f9b7102ca0f93043fdbcf400c18e3bf70106493354a, 0x25a912761f8d8bddfcfbc099bc994a355176c54a1831f8eea5572c476592c1ca, 0x1158c9758fdbbd6551fd2ccd615dbbe0bede969a6cd0f28040e93b5239eda2e6, 0x28e7b56cd29b16133e66383a20edaa6a779b6afb82772344cd2c25979a9a5eee, 0x2c3597feaf103aef0cf0da96c7817bfe5713828c613e326c975ca1309927700, 0x1c4cb6031554a2f40fcd1b71223a97975dde9f4f5c26ca08678870a139ed93c9, 0x2ec728fe7b69cc421f18d96bf7a826ca1b04261f24a98fe9c1e8a0a41b64b58a, 0x79e331f65c8a82b875922c8449bbdea3a111a68179e5d2dffff605e1ca47dca, 0x26cd813f24807033d7c0244c9f0790fb80da30e5e3c1e45d7c7032f2aaa1831, 0x5bd11c2b64de1a736f93ac8ff7e0c166f8c570a6f068dedaf72227e85c11451, 0x25e16ec5be688e137b2cccee835428dab939351b3227e8bebfae85f3a1f9c270, 0xb38073981b0af418fe69ea55eda1be5d289b2f0de3bdde47ee6483f033b16cf, 0x1b40be531edfae81a33e40638fe85f88067919a14dd1de793e8eb1520db3a2bf, 0x1b3437d0f405ab27c185656999c538a67654438f28562b3a00eac395e7133835, 0x25abe96ddc21b2c17b6bfb3a8a90a2ac051b3871c87fb9e35383cf6d7223888a, 0x25e3fc93bcdffeb428bdf8c12491963e4aca18475844b67fc5676c73fd0eb358, 0x3af96b4b972c3371b076821359cfaaeaf9638a072c4f93e08ab119e6c7429a7, 0x232a48732df2599b09f1f1631d68129303ff6d40098f8b2600983e5534435c11, 0xcdd518a91b38feda4681d3bc992182ee111e0440e9860cdc71cdb36ae80c1e8, 0x1b821898c43b4f3ae2007e994ea83a84d3fa63e7595db2f41312cdfad1cf2499, 0x1386203ae413c1942a336b2fa08038f4e92e5952e523bbdf7cf3378113ef0cfe, 0x425657e57a9410eba03665cf1ce8eff3e0de9469b032d468ba15d9208fc20b5, 0x27884ade4cb4eec0c91c8177e0971bd5a9b844af188d28ac1980ccb425fe6986, 0xec81730de0878942af4b3827b8bd9ac4cbb1f3ab7ae97cd1bb135b0b7c78f4c, 0xa93f1c9629ec9071e268148c6503ce1800f4cc3c5389c36e9ede3eebabb7025, 0x7e9c58dd7c4767fca5ccbcd7bdd8a4f4bea7858542b298743660654001ec52f, 0x975e07614ccfe3cf39fd0208e97cad49c65a30af3590b24df1016e6a7ad9b39, 0x283f302c98975a418a232d3263d80dd74300113d851de6d7b5ef3c7f9299450, 0x2b99993f81272c00553c71827e9e24b3270549e703515a6704393b3894a7d378, 0x3cce63cef0bcee4b9d5c753a190c249127a628b4eff5d557f2ec05b5d033c9d, 0x2bf4ce1340a1e717fd8df525d46439375eb3642228ada9dbaca5804e6998507a, 0x1ae9453dcb8890ce578b221d846612a3396ab24ac8057ed48209efdbf31165cd, 0x2764d3e37c82c76382c2c47f4a93dd8e73fdc7cadbec68bd3b03b4dd75c09871, 0x150f9419a3b6d46dafe052942e15ed496e5b162648b7ddd3cf55bf1e52f7636f, 0x876dc242c8d2aa183d184cbbc4340d5a9a3a474ea84a99046999d95c7884bcf, 0x21ae86ad0b69ae69e4b9be0ceae01667895a9d9381a1c0de6d3864d228e8ec55, 0xba0ae75f3c762e9efa11794c8121d2b7bc6ebee38f105fec003595992419580, 0x10a16abfd6b38360d4f3257f3c51c9fb94ec5f845dd83e0c4ac4f7798f2d9077, 0x9dcd9b007d04507c0bc772c0ebf964d496e697461753bd1bb81bbc39583de3c, 0xb1bb2a1096618ee3bae22563f63fcf7e85a817f6345501426c271a2cf1975e4, 0x44c7652068fbb0991aed6944540321bd6b09a1f0d6e91a54b8af4dba18471cb, 0x214ea955c4b2a5107d885a37734de5c9afcef744c4815593f970bbdac51db55f, 0x1684d36dcd86408b68230ca9f98e784957bfb7552a9253eaee876820bee310aa, 0x1666ceb9d9cfa4cbed159ae6ac945516b093ce589c59dfd5abeff6c6c2ee06b, 0x2151a99ef7bc07707ef7e223864c9e8c50836302f299aad05de35ad74c409daf, 0x2f56e15326295bd701a40314e42ccfd5ca4e0814fa54d312e7717e488da05955, 0x116ae009a6c4bb4c28c016716364fb7e7be3b21723755e1607b1a262b91a16ae, 0x2fdbe71f53d54e5b3bcb850ce61743d675be601d74430d9eb8073f6814205189, 0x11a91f3be424b955b2241d753e3d6d5b0c48ff9c68ba868f8a611232ba442f5, 0x1c7c9cf7751255070ebdd0e3db7f97e5d95564d33d2b3293caffa0434e6d788f, 0x1eb979221c31f6978d43e7568a7cee7709d68b86e56d77ec89587dfaa78261b5, 0x263b48e46edff89f2de5dcd258850d200543ee5dde31459b6fb5241a6bcefd76, 0x785b9559c5da0bd57a80150c229bb2d75f51094c8e1a11bfea538e217d2ecf5, 0x23cf1ad5ac576585eccf97091be57cf0ea3bbb2d3af9174f8042582424321d9a, 0x27d4db4bdb30ea4e07550d9e077ba8a9d5caa1d418c1a76a12dc71ec55881180, 0x115f6242fd5412b1208cd4023d8cf87fb62d33a8292b231caf8d825701ab681a, 0x89bbc83094f64e293c91ae79a8b7e009d0f679c67dc19c62597b04e1415c424, 0x1d4a1b3e7a6d26a8c81d7e9f4bf08af0bf1370dcd0d2101469ed87d469d246ae, 0x2868583e9bdeb10538362d7fed8997e9ceb4b43ab8db5b0a4b2f140943ae52a8, 0xb79459ea80e71539e8079cfb3eaae03ce6d0e3c856557c3f71fc983095b434f, 0x119119d4ed16eb8d4766c638d0c34acc159a2b8e24e38928c3ba875890ea1985, 0xbfdbe4b4377205377f69c3cd5e93ecd2a9cb3b4ae2c1541d8e74b64e965a7cd, 0xd41174cd6b5c4c0d34b2f4d841f3f9da4f100e20cf6140864efe6eee54c08a1, 0x21c5915b86d2211067d19fe9a318234043b80b53312749898b537783cbe4e1c7, 0x1038a4a9cfa20caba2d23ef064e7419792e83a31f0cabde4eeab2e49972fd78e, 0x17cc0079f9863177147858c89d3d7f31adaebfbe4c9e074ecabd20b7d2243a4, 0x294ff7e5e36f7690d60fad36b804e35659e82117ecd44deeeb79e58bb8c874d8, 0x1f03f5d810dfa62edd32521abd1d283c2416a28fcaa244d36788eeeb195a9041, 0x2113e2715ea893d00d101bb30e6e1702157d10faffe85095427dc9d9caeec5, 0x2e92c29b7a243a299d92e78195f30a996a3f534d5791a32a0be28bb7e8960c7e, 0xbb300ac74564449f872674dfd9e17a185432f1f463317cdf9d499c87cf8595, 0x250e835ccda0e466dbd59a541e1d03c4fbed637ac6b715c82c32af588e1bb020, 0x6b776c5024ab6374c84f5528ca7930439da012d412f9369ee36db33fc435826, 0x21df8b318a44cc5f9d54bbefc97a91b787912bdd5cdca95f47eb9cc89abcd1e2, 0x1e4e1eaf5d1729d55230bafb1743de4732a18d66a9692849701f9a25e74ca9b9, 0x268ceb3749719379b14ea062c63b359449e70ad5816df014cbd102ac647f2228, 0xe252b231c1f0ef18c8d6afbd879eaa7f9e61dea73247ca3af62b3c1e8794fbf, 0x799c14eec20438a0e53b69882c90c6d9239b7367be50f64ce92d9974c2bdaff, 0xfc050000c821a4cf4ee6bf4d91ba46d2cac2305118ebc194684a2dcb7d7383e, 0x261a8cec31c1289f2358c73530ed7e01c2eef88cbad4010ec09d036e57d2a9c4, 0xfe536c9c7dda5070a37fd31135f77a67f9f3a986b1c23deb83e85793cf3cf89, 0x19ffddaefdb50032b58e08b4f377b1c0eb37f06375ff78e7ab7b605781dde8d7, 0x2e204413c53445351004316110f539849ae7971f877fb0841b19ee753ee2083d, 0x2aad98682dfe08ad2c9b15f4455a201d4a963ac7dbb189a42d2b3e1c3e03111a, 0x2c89f855544594b08ca43a7c32c31c0d90aeaf300132c8b4a4cc66843a181ae9, 0x17aa1f236e0e89d6c821337ec90bd7a78b32eb9bafdd9e83ff8c7b1b9784828b, 0x290feaaeff298d887d5a5baa47fe2e84070eb78d2079d791acb9067a979ac1a0, 0x26103b8738968671897412fb4246da86eac69235c4a1a71aa7a928034915f67d, 0x28a70fcea0f277978120db4bd478a6b09d54eaa8a97d369dac79716989b43c7, 0x2499d1e4544c6db94e9ded9ba93fd92162686e412099de5baf123211b4138ca0, 0xa1aaa6aaa97e0c7228ffae517b59392211af38efa670aa06207ad7f05bf0af7, 0x25b6189ccf6ab3a759641ae79385f3e7de0e375a61c260d84d91b330f83616da, 0x1746b0b982fefd9d90e7ce72cdb5f92ce0c6990eb43a27cd53efa1bce881eb60, 0x289e95d858d2babe2526517d850587c3609a9f4ad32a646de51e866bba0b42be, 0x3048411ae21ced1b31d43d3496c92e66a26d53a24f250e17f328c358d97c220c, 0x37ec711790b5b9819ed2f20da092a6befa9bc44cbe6c1c21f33d3efb17688fb, 0x2d4029de72bf01e5937bfa34ff4d5ebbeacb010ea816d9fcd6e7af91d9a6714a, 0x466fd8b23836d8e45a1751a1d0d28db003cd20545a88e41318c571c38fd3b12, 0x32edf5df6d833b5490840e0140247218d6254c3697d0070fdcfbf6f1168e841, 0x24098e733e307a6ee49e38ffd010589a51c1df21282d82788f5bd0cf8928d1e1, 0x2d5e2fa5e630042a0731ec84f4a548420dd5674b614b3de83e5ca707ecb32706, 0xe77210dc9f28f0aa0b9330bda698258e429ada3e10f084f5066aadc86d7de01, 0x2ebdaa0993f6a702e710f8fc47392d7a0e5186294ba78ccbde291351087b4fb, 0x5667655c2f54b241385b86fcfe274d1f245699cd6aa60b6fe515102e6ed9c0e, 0xcf97aeba824e4585cc9e73c62f0334b8ed4cce1276b939501fc2fbf6b2cf2dd, 0x1b0d81d58b85a80d5fd10b4c399e0ba9603e0d60c7a63c89c8339dfacb3dd88c, 0x165261806d574e0612d935eff3064754aef0f9fc86984b1e31da996961b565ee, 0x2543c122ea7e08406b7c5a89f385579c585ce647d98ec4400b6db8ecbe6dafc8, 0x18aac1e93332c0695691852880b308f069d8749f94c92372c1367bced171ee01, 0x1bf63cffb45ae6f08358df0152ace17058bb3a63b0b1f2567e69d42b44048bab, 0x20283d0443c843dfa2cccb285119fb4a12094c90ce6ada0f6def11ec6caa6b96, 0x1d954fdd63b3ee13a6ca13dffe9832aa9d9e5f2e1ecd3e407272d87c281250b2, 0x31b80ef30eb0f639c33fd4e7d5b778d607ce624ab7c0bbcd9b2921b6dd0b164, 0x1bae6f23461f682a6389c607670ca2c975b768ba4922543dfe0c78dcde3ed854, 0xc15d34b4ef0d6dd324f1fa8ef058bf24b57419c1e49396aecc6b2945562780f, 0xc95d91f46eb587506c57bbc2ccf87a0fc5348ac0dad375eb409aa64cf92da96, 0x2d1da15ca522aa1868740b9e801a008ddb7884657ae89507fb99457326786ddb, 0x572ccd7fc6fe06be9bf2bfa8b4891a37e728805c609f1e282a0214480e62894, 0x2016ba766dc14ebeb269c939f988c0b0e5d7a16f2649e38877f2ff8a525a88a6, 0x1d570b5ff85730e9ad8c3261b6ae8574999221574fda8a97f19bad50dc2ec724, 0x143223d027cb22f42b20a25860333657c243a05e16f8a0fb07784a3f8b3f83b2, 0xf67ed530f31504bfe3b87325682a5e9b916d75caa7b5b3d5e222c7f86417dcf, 0x10138516469478294fef0508151ea8164f146c8e377e90637c4630d0b45de53c, 0x286dcbdb9c85e5d6c68066b69720b550f46158374b88e76ba48091661b591e19, 0x189017ad0ec6599655fa5f5c041b189d4a5055a83914e5eb1565209d44366f1d, 0x123bce9fd40c7f1962d00668560cc3192428bc2296c92fd13a42d75b41b441a4, 0x1f9aa5e25387985073ca220da7df2a6cef8b60a089e4afd93e14eeb3d5dcb5e6, 0x103f38ddb6e1a669aa42ea1c7b9ab05761f1804a15fe22f26bd34367654326a0, 0x12389e0109377aad426be4716375841c2fd4ab598b60b6b2b4e7a2ef8a48ae7a, 0x204ef0a4fe68dbf212371431265460d3ad63691245c56ccd4f6990b989537d9a, 0x1425c7e1f5f5a42708633437672f8ccff1c17bf74dbefa1e99cd040cd193fb91, 0x1d1b25d3cabff58428e2696ecea9975a9484302d17fa12cf33d8416b4fe1d299, 0x23908186767f07f13d0adad116284f2f179144750b0f1ffdce62eb4797ec20e6, 0xd754473d7c8757e822a89718cb7d7c5acd1125ca5e0d12718486552a3741974, 0x2d59de71c65b8678dd79d9ecd3915197d161b253913299238ef8d3d28cc12d67, 0x2b2f638dce6c5dc04bfcbfb40d6d547e52730cdfbca74f0c0bbe5fe25e0a6e44, 0x20831f33188daadf77c482c1f3aebbfccb9bc2755940684441276f800693c758, 0x1bdea03a87112ac5f71d27b0690eb578be20a7eab02ccf7be94a9b504306bfef, 0x7f190626c5ce403670abb23f739112ffb91dc234819180d83de234de743a31d, 0x21d03a8acc5002c7565dfd84fe3001d9d7025929c71749de25382bf9383c70ce, 0x37f8e1f9f310b909085ced938b600d4dd06a147d5183992d9792ac4458f7936, 0x2680cb420ea4ae49c2286e497ad3cbb55360875a2b69e17e1fd096ebac531c5, 0x13a3a06d1fb827ff1406192162eb23b3e27e94cfda6aa05a86ab5e325e5df358, 0x7060927b3c64111746648d6a8433ff8f373a4534841e5cbffe5bc41b9e688f0, 0x1d4143526045c6c418ca7edfbf9850fd260d231b52b2097fd22411041cbeef8e, 0x4f6db2530b719a376c6e7d489cd7fbc652e7d2d09064e3e9444978c9be197a3, 0x542efc3df5bcef699f0fa7be5c71cd32d253f20488bf70d734241e434dbf09d, 0x2769424bb96a6c21c64a506107d4885fe53603c09ffbb01860658330ab1b57fc, 0x123bcdb0cf6e7afb47b866827db72332e93c571506e073c498ad1a92befaeaf0, 0x15a1d25ab64db0353b33ad1009a867276097d5a60b4b18dd02bfe855a4952b21, 0xb9cb6fd7e6ffaec8246acd41e43e0712fd76d5cae56a94076cd816354db31be, 0x1f38c1ffe5470c8367677c8c65b3f83194cd9c7d2e8080a1c31513a2c23912c7, 0xf32237d2d6ed00b1ca954df37c30c988f89415eed829133f5a73634d05f0c60, 0x1905f76e825e1671f867fb5858f25e53a45f8f306a9a1b6dee7033647fc8ad15, 0x91c7d54e02067adc0794494efd0ad906e8c338a524c37f825f9003ac312d02c, 0x2dba5a21943598041f90860c8e92223d7511c74beb4648caaae4b8de3870f3f8, 0x293a350bc3c789dbf7c2e5a015480678a755ebcd68e1cb29e41d1d2942c579d4, 0x49d0199b6c0f2b3122d7d74b31aea8fcb701a24f40ba5fe698de631d22f6248, 0x2b9325291ca148c86eabc2eb32cae477dde830f028f548b5b5c6e143fb8ab68e, 0x96a6ee98c5686bf3d586a0e54961b0a3afd6d52da377122e85a355009f4a560, 0x13fcc77ccb4a091ea452a3f4a10fcaddbaa7ab18eb3f88508bd128ad2ea5a818, 0x9199f06156eda7c8103343b344bab11f43551bb9507bccd47a292af3d4fba68, 0x2fc417c576e3fa9b6b38a82e0328422c2d2dab90879e42fea73033a7562166b0, 0x27a81a0c9e5d0c98fcfe679afde0caedce2c5fd66742492e80dce95fcac79ff1, 0x467bf8d537dbe823d6a7d64ca2c7a2417a2d7758fc1a89ff93304fdeb4d079a, 0x71d82bca92aefe7636f10c9ce16f7e5b41314128ae5907e1884baa183442469, 0x1473e4434eee30b2e7db34daeefb0df47d1f5e939aca25394aa11a686ebcecb0, 0x2303403014edd8333b87d5cc4cb08ffa29ee752f6a367c5c9918f8e3b80acd49, 0x213f2f341749dcc702fbeb8eb916ae6575445cd9d4e5fd5bf047aba7ec25dc82, 0x64369bea4c676d37efe3a65dbd4316e0e1b6b51ac48bf9c01b52c15b24e8a19, 0x26189341509951e63ae3b022397098e5fa9353625280131b31dac3a1c1837967, 0x28c51ab463012d8ba9f0b7f8eec91ccd7691ef0570217892d57494c6faa6abd3, 0x2a3e5a660753c0f733827620cf3d2351e4f171133f749eae0cab25ac5aa4f0cb, 0xbf314d9d75e35486cf9f62f6539584d0f96fcfdfea1617b76a4640999f3d109, 0x2d96368456c5fe26d119a5742d014db9e86feb0e2315c2a37bfbf7e02ca01494, 0x1ed8f2f743e4af9edd62d9add634474d54113712e5e948f05b82d06e7b59913d, 0x8d5a047a23396ab6b1c02d108974b25ae135e4f0de6805627ca074f3c58a89, 0x47d8ab6c52350d654f86b8942f10d2c0021bfe9dffa1db254dcc5028aef7100, 0x1991c857b30f3ed8a58fe229da5c13fe07d75199998df10921068afed09a6a36, 0x22e4866b8af16ceb7fd45737ac352805b1c575456e1535a9e9d9f7a79e0a5b5, 0xa0840cc3720e659f311daccfe6348f287ce1dd473912c34979a48e69b06aa54, 0xe4ff910ee3920c587d0610db1fbe08bfdc2db5381926263b177698810dda57d, 0x155d27b044856920bbdb5667d361a536c3f8c5a5d8599e2a7955dffee77c266f, 0xcdc005d55f575c61a43d8a28fdbbef3eec35e56a438ab99680c4d1efae64e7b, 0x231e87ba98a67f86d501651f5b74bd53cfe26b9ee09c07a9d8371b6bf7c42be6, 0x6b4d87805bfb75f9c37a61e10e5579122d369327c344d516e2ce6c89398b379, 0x16e66d16d3f570ad5da3dc1ecb3e18b38eb8d8e05b2e8e7884491a2e1b2e562c, 0xc66a6340c9c20cf66de3d6eeb9d49e8a737c233343df8d847e5a718ed5118ab, 0x154a4b19575147b6672bb0a721ce40957fae3e336c82c7fca199ab30e7512274, 0x15e4b6a70cdabf2c4de98419da811d062ca8e9dfcbe39bc7542f66f7b60bf63f, 0x1161ad8fba20760a13bfd7b7ea1d38257edffa8c52be8f410087c916f504afbe, 0x27b83bc79d2ad4da4b5ef4982e91b81074985cf23311a658dbd0ed301e90fc5a, 0x1a4115730d7515e8ae8d0000e48f6cefcc893190566d94d39db15517f401d9dd, 0x1a9c2b3b97a4108828bd76bc41968d31402b4041aadc416d65c20996ee6ac6ae, 0x156aeb50e11c39af946c5312fb0e14db6e919490571e0ed6b555556c31f97d90, 0x14d25507db869e282d0759cdf16e81006faf9f10e663883030997ab894149e2a, 0x336977ba5510fb3b812bf39fa1946594a78a99c00101ef101727c2e8e7cd687, 0x7f8bb771e58e5761017a9562c6b285b93d6b709aeda186d96616197579f1b68, 0x154c478a2566294d2f96d834323009af0dbef15da62def8171c309a05ed1dd6a, 0x1b938bf306de7f48325de59877abcbfe2eea089eab0903802c7bf3fb9532627d, 0x1aa446890cf65be6ce7f7d603bd42e03b7fec0d201668f760dd609d31b587e20, 0x17eb7ee41c38747374a7b1f145787ac75b8d542d33494d65f0ed00ca4ed17edd, 0x1d1b95e9e4dcf3df901aafe1bda2cc8237032fd36ed508c61c8b4109f820bb61, 0x99d7df97cab5226cc7e3a35ceaa635c22ab0110e93a62516f0370a2967429f0, 0x161e53b2f10ee9aaf22596c621480e1de2090503fcc55a8295c23d45baf68f94, 0xb9bb53d660364ce1a5222bdcf2a80a161934e3e92de5057d668dcf49dea99f5, 0x1c8457a265c1756de7571b30290dcb48fa0beb2b7d1e44114262515854808326, 0x27f9c6fd0b90983010d60a37d80a58abb0f3500d6d16c9bb4d6a52ac91c4a491, 0x26880cfa04ecadedfda3a24a956734d4abc8ae2f92644369c8460df5f21647ab, 0x2f3b58e9bcbe37e95cdd9990aeb26482c55eb2a9409e28e56cae24dfceb8dde8, 0x1117104decc679a66af2e7588d971805b518ac219fac8078cd522ac8980c6980, 0x1c745418e4cdd80ea18a339ef590e58362b3823b1fed2d6a8ed942190771cfc, 0xcad8a954ec6676b42e43c86902432a1e17e2cf4af5a3274bc1be6726e1dbe3d, 0x1b30bb989db0337d04320fccdc7d66f0bb15b4377fce1a75b4278bfaa61d5f57, 0x19a557a172005f84242d40c56be7c37955cf74da223557b0eaddeb5b55c6181f, 0x2a1f883c5eadb6964d4847479f52c8250b4ccca0fdb292238b9375dcc218f4c7, 0x162a0e44db8faa02dbe1aa52b1680710a8dca6091387695cb22c1ff844928341, 0xed9944bfe48542efa10c9f20b7dd4c6b15584e126bf2c01c8e04568bc8ae21e, 0x1d53c076c105da67f5cfd822fcc9c291dfa2923c4c6d275ddb45d926c9711c2f, 0x72ba0a2cdae57b583ba1d72f09c745e50f4e16adedd6488cad8b793e3d2adce, 0x26e72dc609c2901873d40a7e739f70af722aa439a0fe417d7568c38e38f47ce1, 0x1f3cab65aab5d0cc6458519a14d2b0dfddf4c005a63303d1738f56d4c41602bd, 0x1dfb345ab565970e95c89ba297b6355deb2f2302b66179e1dc548983aae02d76, 0xb60e697535215bf10f1cb1208e0e699bd88598199c6d8d652e69b90ad80e6c0, 0x81593786e302650396b0a45ff8f62366310a1f53869d0557284481ac4bee258, 0x260276a46e6c624781f3a777a9b45b4835a751c6b016e584da35a3c309844351, 0x20120b4045167313784d0c2cb4ede07afe7fb0605518f6f50cec1b8a4b68ac73, 0x1fc1e2292678af8dc5dc1f2f1f573c3ac4e195c5a9857e40fae92309bc768a9, 0x14c0047ad00b7d736a8d817e561e582e901b4481e38316568b1be267e775b93b, 0x250b4e6ad1c7ef8ca6c251c27aff101d7be1fc25fbc484477cbbe4e90d456d2f, 0x11aefbc0c4a1db81e5b74581f81f7a83ce7bfeefceab74ab4b6ada0d8aca2acc, 0x100917e088672481c83ce9e3fcb3db32fb72a83332e5b27af55a48c73a6f9a89, 0x37b5eedbf4da97617f53b898370933367620388d38e16a0bda6a7759714bbcf, 0xaf98b1a856c51387767bc26146888b2806e66643b446fcc3f91859fb39cddb3, 0xfdd008bcac697e8113e71c1c0e4904f5259f60aa43ed448796c0ed948fbad4, 0x1781e1fcf5046e26f19bdaf3416ea604454e254feb0a493905f566b51510b596, 0xe80eef14d5ce06847a51b0e9e4541b3ab94cae7ca2a536da9a264c83918594c, 0x37dca03a6b5e150b50564128082e6980a67703fcb783e0e3e12033004fd76bb, 0x109c28dcb873b3272d40beb0a3fe8f4fdb1e7a2ec5a79b3c437c19dc4e561f67, 0x19493c0f5c372c7ad0c4f096bf4c206602ead23d19773f6766f135a71e017bea, 0x1b10be965cb7e46f154e3c08a36656c2e8954b5d507c949f7597b971c03de325, 0x2de26e700320ed4cc986550d9e4d6a1656115670f3411f5f503404445b4adb7f, 0x11d86ac71de74607859deaff3cf093f8076d28620a88621c09a7aab1209a91a6, 0x2c3c3cd13f231389681701241a54f58c9f6af1ebfd6cef4fa30e9fa2fa4e02a2, 0x78864be7a5f36c07fa9248e98181040fc5a911815984b8750f944bfa5365032, 0xfd7187cb6096ae0e12e4e276419a03edc0d3246203362d583cd064a6c79fff0, 0x15e626596829d802f0adbf2476e9566e1c36348b0225eeae7e38bd0e3eb2dda6, 0xd46ded5521d165c4fb07256a2f7f5e4819f6d88ade910b9ad3fa6c5d7dfab10, 0x795397bde46b5a97a23f72a8b926a329f3cd2bb6200506e7e832abb6453b8a7, 0x13008e1519be302934f4200329db951b700e322db1a87dd5798c2b9e1259e9a1, 0x1a3f403f644737a46615e047a42acadedfb3d84fccb73999cab627fb6050123e, 0xc921bc32a9fc9eac6065f5dc6346159ef9f6dced9649896b14edbf3aa8264f8, 0x78f97a37d55f50fbd63b87d595dc665fd206ed6c887509ada7f1af0d1e6493, 0x1bc6393214162a52026d07fe770e530763c725b7539d9b219cc574943977c6d6, 0x121898c012ec88514f155880c36c1755c158939089f8a895b565401de07bc60d, 0xf1bca466bb24ddcc60ce92b9aefe7bff427d1e57e56f654fbdcc362eb1e0d6b, 0xaf379ec4d8d65332218f5138dc128d41b1b35a33a5d0efc5dbb6c881444890d, 0x4f21086392ddbe22291af900709be87fe4e9d52b1dd659ec563bd848d42dd77, 0x35894f580c826c669d912a6966478ecfa19ab1bbe80e5a70c6a1867c02c8d95, 0x2ceb915d2e4787cdc8e948a4ea35ae04bb6a02c0720c51ecf9989a94b8979482, 0x633d77da5ed88f9c127c459a30d5f8cc0bd85377a63c4e7541ff735271e66f7, 0x22f713759545175f343d00265c3ad9156ae99a35f3045a03446fcd88ff33168f, 0x13e3034537e2b8207a22d1753474f2c4bbfb103f2473ec508348ddc50d60297a, 0x12236867a7bde21abd297a77018eeafe4b840df67f784d1b6981d7e91d70424b, 0x15ad10d6809344fd76a38b99f45fc3d10e98f0b4d1af4eedf461c43e92a6c0e6, 0x5e7352d95dc1c7a20313a53e66e69525902a17e1ed43859453142fc49529b84, 0x29f6e26d8d6141e1955d9fb3226a74ac71f393b16aafab41e3c787e71fbfe196, 0x1ca3c0b4056dbab797c54688838a074cff8de6bd6a75c7b6081f113b1fe37380, 0x141d31bd71dc6bc8c4ad59582f59b963c05623de46199438ba7edbe4be2a4660, 0x1063538fa44657399e12597ad0c9220fd608178de399e5a98fe8abf3ac410c83, 0xa1aef7064cc9aa31935dda57cdc4ee0f1104d4345bcf2e42ac48aca3fb9158d, 0x85280793128e1556cbbfb35c9aa97aa074c4a60d8169427dfda366e42686aac, 0x6a3c8dabb9a0040af5671cb1ddbf725b484c68360ef5116e9b7ec05fe0a6966, 0x9a5f6596e0891dcc5e27a3b98ccf537acc9a8bb74f8502209b436dc071bb4c9, 0x11620412943c57b902af3626ecff608f71e3f958c87cd0014a21f94c9ff355e9, 0x52144d7b94eae33de0d6cceb2e26c829b7f722ed2f9b6010606fc6f38b7cc63, 0x7ad1ca346d6f4cc17bfe58274c1b355659092c58295e4c0e78111a387aeab1e, 0x2963052dd36d3383f358c8024308dae2127213640c785f202a8d83251244d4be, 0x489690a5d56372b457632d77ccc8b80aa24874737e9a05de269e11618ed69fe, 0x1c01fff06b37a517d39ec7afda66ee768fd39ec5689b1ecdebf31299c376cc66, 0x6b30c158318d9b5c81edee80522afaf72e880fa327ccb07f8d87ddb66f15edf, 0x16d571fc71e5e4a9630373d12b85a412268322cd94707eee0d678d2b6266e9ec, 0x67dd981da6052087bbe44ed357898be8c108fb7ed6a13481a650901300cd584, 0x1144f33bf1bdba903eb0b43449b24687bd995f0dbbcb654e38aeb94a6d93a1b, 0x1614036785ba16cc3e158bf70c214fc0584e433fd14009d576a6787970ec0bfd, 0x257755228300963581662fa0e767f42d5bc6fd642f040372c53d3a1fee9692df, 0xde8628a2b51d70e30fffd251db4dc618df73081d01df1612182b2f3bc07ba1c, 0x2fb3c8b96fe17cc14327e848a61007ac7f0432d3b40f0802f764ce7c16866428, 0x1b68037617ea65f863d828f2bbe441228b9d76d9463d83d779e5eea0ddc92297, 0x2882c16547cb68f8806b77ad813ee36372353e9bd1c006fd1961020508774411, 0xbbf09ef8393989d28a68d1e0bf9b49b9335d0c3611136494e128e5f7b64d8b5, 0x2c70af6d36c07f4e4b654b3f8ad98b2c91af09b7bfb74079977aa87f99b1394, 0x3e7edebd18cc3ff82b835ad08bc4c3371b7d55286f7c48c747d930127f62b5a, 0x2d024df041954ba23441dd927b30a1ed1028e92d4c351643296742a974139b6f, 0x298c0d1fc2f36e8fff334256bc5cd7e9e43b892ca176292b3a64d76227cc49a9, 0x18e6416958898ec89885353630496c2c5f572ec50dc2d04ef17869798f9aefea, 0x2d53a27c2c07fb96058b88c9789fc3f8e1d361a412bf164b2aa0e66e700b3678, 0x55277041cb7a122b1618b05ffb93f723416ea8eeb6813085dd54a99db3eb13d, 0x2643e6d5ded06a3b540a3a17e76cbced06eace4c7f8e95e99db09a1cf674fb25, 0x4c7d00cd7767e1c0a83375a7b11d43bc2fc2d9ad3ff6366890a261c53c310b2, 0xf89d1e5310d06767b2f0b1266d56be653d83648878ea25d79c4ba05d7192e26, 0x2e6a9044a5f48fa9bb75ee3a7599da717dcc8996cec003d26de87e494ed4e97a, 0x2c99c1ff6a5a75729540c409b39faed9387759b5731f0401e86c9df9aad08cac, 0x13ead7267dc6cd6162931836b07745bf142ebf38fbb16c030a410055aaf41e6c, 0x17a87105c96c2026c777aa33a53292ee200cbb9f855d990949a36d55d576f7cd, 0x2ead3b6ddaf49661bd4bf3f6cd1f12127b8e26d7baf9366005861d08ababd4ce, 0x1947f8c0db2c58260479222a71b692e4eebf33cca2cff82f2ed62f90f51f17aa, 0x2bb8110d2109c6a1f2ec56bf72e05a161e94919bbb0d855d5bb351625a409e86, 0x17dd76cb0dba4956f8bfb5311a83222e60bf5df2e20316b336693d2871a745e, 0x1b6a1fda58c084a90932e269b8e56fb51cb7741de326280e035d9d89925a453c, 0x17d9551144697337ab2dc2942cb774bc424408dfc3fe1819b3bb30fcaf404b6a, 0x12ab68bb7ba2a36fa645f90fc7220d4f82e8384e231b09ce993938a349e0d5b5, 0xda8dffc7bf3ca3d2adcbd362035aec9296bc74ea67d1e94a2f6f7df6a0d9219, 0x1496cb3ec7cda51d85f776d8613b0430e974d7c3a7a6a843e66fa2531da27578, 0x2e81957d2f73aab44a59030affc945b26172fce09b4d4351ae53ecdac82dd99e, 0x2fbe8d6ba5027296b98f0277b27e287e4c59e9b1f84624e0097db390fa65c090, 0x2804d45c96d2d8422c8c1ddad8c1115d92aec2b16930cd70079bd44cf41fd98d, 0x2b7ba8b64a1cb2fe67745be523ff46a4c8c0408092faa2333c45d18348211415, 0xf506b1dbb1b5edf2b2d93bfbc297c117df212d6127cb29c6ee60a2f57b9e215, 0x2e9b52c7f050b2e79bd377d47bdc1d8246fadf3db799826364c4b7ee2133207e, 0x8151faf272100b459ea31b72c3abc2aa0ccd71adda2ec0196895c9b2f9a6c35, 0x77dd8a546141be08daca164600e35d10d4d4e9f536163d41c270c7afedb58e7, 0x3061e55590411e9f811476d6ee78bdafd88f4fc3d4be60b561eb79e0e17831e0, 0xf5000c26e73824a45300d0420e81d8cff3e8580387e9310d4f46908cde9a92f, 0x91d831cf15ead47511b93af75c8305b55610b3116d07a164feeb6aeeb21f7a3, 0x1d3a3e735d4999103059079b59588db5fa076b94ea8c70ac7ea6cdba7f7a9553, 0x1e89d2b3e30ec664ee929c38842721c074450a0cbb42a4a929654b3756d0bbba, 0x1c4bbd5f72f3ba7d1484e517da5c0af72236341b6a8e991fe9e02a19cb24bf71, 0x2a7c81f7813b82e3b263fc5739cab23c5eb35d84c7d82123f08625db7b4fb963, 0xd48e4062cf25ed607d179bc3d84e1f49d30e21f7838386ac3b203701ae9884, 0x17f43305942f3566265972ba5543d4a8845dac0c80e2cbcb56aab179d2854157, 0x8d87717d5eacf3e5bb3fb473776a5cc47d2ef805bda1e77059026c7c6629741, 0x19e6e275500bd0e80203aa20c0ff65f7985455cb0096088a5b9b8de314900a47, 0x96d0f3b6dfc5e9233dbaaacf69bc70a0aaaa1bf6c0e04e02dec3b5cf8889f86, 0xb9a564349bae4ffcdb0453cb7230aec5a15f18eccdf1910c10dd7ad3aefb08, 0x237d449c1548db8987917574ce540b1ccd24eefd90e28107866a175c7c16af00, 0x12ed08f7b9d12bc30456bf424f2c05c6bc912990de7318e2257d98a413e47deb, 0x29611601abe18d26f5c198268af5f329b25f42b8f07a65849fdbdf90038408e0, 0xe17287eeb77d085fe7a0b10fe16540368e4b1b457425bfca8638ed10f62b201, 0x29d15813db66650d5fb633cfe0fc56e242ac3d039d1de205b0a26178c46434e3, 0x7fe7f7be1fcb36aae15a33171e9d0d7f2e0e193e789e57bcb8f016e08116182, 0x1fa87be196f938da229ceac44ee343da8f2c3f956c8e50095d36b73123b7eb0d, 0x24ffdb52f4f443edfc06b8f31a9357253c6a157aa0ed35119437196c2308fd2d, 0x2d4bca77457123208fe4508ea4eb49c617032b6bc735fc5399b0c2fd6e0b6f77, 0x2311d7f0ce5763f04be120e804d7e894f789db9ebe2f85a62659a94a27d3bf7, 0x1b6bef8d51e9451f00d5faf09a78393ba83e58ed224a2e21c0039658bff79995, 0x908d6045d96d1113c4fc30336df3011bcc56ba66eca87ec8d2075a176a76bde, 0xd94f3ee8083301f8e3881008c66651c32f74324d41423ae0859ebc096f76b50, 0x1ea89e11b87e6fd00623489d6ddda9bf67efd74a703d3bdf58bc09f68a0112f, 0xd07457dc3eecfc6ee77c7adaaca1f5a369e096def369e66519a88701baab786, 0x260461a3f76bb066094d76406587ab6377217fed528222da29be2cc7b90f1d2d, 0x1a229e393e2d30c7978250bfef3165f267643eb3c22dd9f1cb1ade57ec1bdc1d, 0x14ae23496945484e158822450bee1d59df28a552afc9dbdce748e36553d21786, 0xa287200ab7d925a94553e693ad30d517961d7b5ba293d9d6ba67953438ba72, 0x178b818748633614e922de31583f27c417c365818953d40cd44f18042ee1d1d7, 0x84ae8aeef5fb792c36cd573a0b12f0dd0c91d6d4476779e1d99b2925a05432, 0x28a6aa60d570f0999b772d7c83cf5583c9b23dff39f63388dda40f6ea4adcef2, 0x1afe2a4839132b0cae494f76f6fbb09fc97a2dcffc3cf455f644dfa1e89e019d, 0x1f5d00c0c3a24bc115798720b1f9ba6b52feaa44522ad1fec2c1ac9cc2cfa9ad, 0x280c20325d10c5c9f9526576d6019dc0248f1058a0afd5da5a0cc65a6debce93, 0xaa34e03af3b028cb67d1f4dec7d789478a3cb73a27f01c75f84bd466ed9b32c, 0x2de51efeb36dd7f5bee9b67afe192ad7ef4abf63b4621247be883af708828074, 0x143cba615b06223f5562bd0a28a61a33cf8dda134c2b41954e1a566dd30bbf01, 0x14351a9d27d670b7aea2b999bb187d7ecb0529f9203aa036142e5277e6815f6e, 0x46922904294927e6b58028050139001843032f6967ad8a05a204425711e18ec, 0x2e056e1ce369ea903c473abf7988a24d82fe9fe0c87b7c9a605c656dacd3c5aa, 0x7245393912f85302ed7b5d3601fcbbfbaa6f35920145ef0c59ce88c1a6a9219, 0x2309fe6c306ef736f61dcaf65bf6d9b39d10d2e9fcf68ede37d511fa4bbdee11, 0x170e4332da217cb3562e25f5e200a19cf36f84c986296e71de1fb26125b6e78a, 0x1e3eacbc11e9c8190274d70bbd5dd0ac64a374595cb77dc08e33ee5e0d82c609, 0x998326b8f93e6da7a460baf6cbfd1d29db3773070becab001c5b4af76cc24e9, 0x257d940ed0cd76647e2d3f62a38919b3c62326a494ac9e039f82a22ef1e68891, 0xf4335d10bfc05a979f038de90daf70272bbdc2426e4988646650e164c5627b1, 0x1de2a72ae9d2a5632c3e6239e61de783b7b84c8bfbe97df965c739dca7609284, 0x12f44b0e8c694e7bbd5699e4fd0ca734a8c9cc3f59ba2eab4a329cf5cb229289, 0xfe2692674fac2fe017fee7d922928dcbd3158ea209d7948a3d769a709d90d45, 0x1075abb0e5a208cee18841131ab4c87305f1441aafcb808cfff68477cc4fb2c4, 0x1a64cf8c020e712b334dc8164f247def9098553dcad7a440c349fe902439e93c, 0x296a51a4ab990c5934922b9f553e053293caf46316e058bc79ad13a37f7c82d3, 0x138ef5ca84980e11dc9b54ce02bd516621b65ea78ae0974c1db9a6720c00223c, 0x28a75cdad539dc300a2e9518bbfb47cfecce5da01cf1e90210782605181300b8, 0x26d2b92339d8d44b3687709aba95c380438360fdf88bfc7a011382bd2a7859e1, 0x1df11fbcb77f0ede506504bfb4088e3279a79fe6b84c3a51af512a5fa9e2ae36, 0x1c2478fa762abc607fb0a162a2473b9e4c983859e0ccf51dabde5fa7c8d67789, 0x2ddfe02cdeb5759332eae4e2b5edd5381205515653b7a766967b829cab80e18f, 0x67f9d082c4ae52e53eb02ac1080d31a93537ea24d74a510c89b7da79bc3158e, 0x10f56349169a98c01f7e8da62e515e55aebd4d44c4503783012f588a37c7280, 0x2b035879b1c570495436d250a2a45bd85510b8a6b951629a4a5bfefaa7117fc, 0x1059e4e3320b8c2d66a6b6b1511fa09e619c4b274201ee8741be77fc5b39a6b3, 0x7994b9136814469cb0a286067f632b349b5ae24dae78b056ce45d722752eb90, 0x269e470e88cbd936f4c35ec5f0042b9d6fc138f3dca5de3a83a99321c8c1e4a7, 0x129f3f097b2aa5746ffc84ae17aff9a892a6bc4bc965ab4bd1c65addefc160e0, 0x19f39b427cf94a65aa7bf76a405b43c0d0b4a824c8e60ddd645d66f0a91ebbc9, 0x1cb82f7ce4871b4ab04f77469d0100857e98d6d950dbe8ef64e35681cf888c32, 0x2fcea06bb3c4f9c9158418921b8c4ab1380d155a139894648aecee891241413b, 0xc88d2ed1d6ffc58445502752247df534c2577b18fc83f8419fea33727e56f6e, 0xa1da581a39db4e8dbe4f5f686327e7cafbce078ca7cdfe29ca5d3ae74ab1d26, 0xd56f11d19300b214a6309769c23816d9109b415fe6b1fbb17de6fad7d7e12cb, 0x2e5745bd8e65df2e8c490465d8e9357e9afaf55aa182b8a46a4d8b47ca3e6be2, 0x1da803c3d0860644231a958b17d2c22ea4ada1347c5748f8ab68a402e77fe8ea, 0x146a6d1fc8428ca679fbe8c69616ff6798f59a827d47dafc15af34fe5182f08d, 0x12ea0731eff3e53c881aacc0ea77c163e30001ce74a0f5773779059f96360fb0, 0x21c455910996187ec677c08373e20c41a30a2d4c06ceaf21b91f0b14a13c9046, 0x189890c68e60d975ac6e44d343b29cda1dcba09e0a67e61e2cec8b2fb9f6d8c8, 0x2112df96cbf5b91e4f19269e8fc74f24ff3663ed5632a26c9c3b7252b502cfdb, 0x5c4b82abfb0c152923d56f0fff0411a3b5d11bf00539445ff183d6b3170fbcd, 0x27d88fe28f12c51e94af9b2b3f14099afce73a3736a9fe1cc89b11fd4b84447a, 0x17450b33b035a97eb613d289ecf775f4003044d861eb41963a5d78304ebbd905, 0xee988a9ebc8e608d631fe4324fd78fa77e00e402f5b4b0474723ee47ddc26fe, 0x14a89566dc2f0ff0b64dfaf5d8703dc9f74a0f9ee395961832c194e3257e0edf, 0xce667d93177e3dac9901ec3238fb0f403b7deb370bc069513428be70013464c, 0x16aac40ca45f818abfef9c158704a979b32a208b1557647c606de868582184c, 0x745f2cebe4c7eb3a170b3aab5825d5c2bcba8c04d66de1007f587b2a1e535b5, 0x3061f188eb54dc71a19c698f1931ee261ec69297f79c420805ae0751496703d9, 0x1b71a417d12ce73a3b7a7025a14f8fb51a90fdec9af9b1dcd8067f5830fc17fe, 0x2abaad97be28bbf4339b5a4be2e24b57e8d9cc14775f5b717ae8cb227c8c581f, 0x15797c5a072cb00cdaa3a97cea969bcd53fb2984c23b7adb237b6065c650dc73, 0x29df7edacb34a24b1c52d8142c5338b98dc340c0cf27bcda968891e63b8a7a6b, 0x24023ac420b27f83814bd182a843f6ebe5739bb1b9c686f59ce8a1a9478d7044, 0xbab405ed11caa543f9cd6d8863a65dd800dd08e8c9499e5d6a58474800339f5, 0x1270d139a0dd8a66bd9d360a9e0111cc440b39ad7b3ab4694b3ce507ba64a922, 0x4d722503a7341a690f338977b80ad66d0710aa65c6f27bd49823d7c12c7f8f0, 0x7a08300cf55c60191eb9e9eb63b40497980883796856aceb6147e390df57143, 0x1436ea3a03399a958710d4a76fa9140b32d5180d16dd837da335df7fbe18dc42, 0x3e5972a9ee5473d2bee70683a4054098d41faf8a44c03ea9d09cca460b186af, 0x212989d49540fc0bc6b1a2d150e3bd76a621ba2cdb4475ab1b72b0b6391d88a3, 0xeb7f400b0e9a2a4635510a5379b4a03df8d56c54334fc8c713db96bfb3a5d99, 0x2338c348fd956af6e191909a22a99009acc53bfd8180926f591ca7f78f8f986a, 0x26afcc776011c8bec5e32f56f149a511d064df09cdb28f0965b701558e63838, 0x21da486ba0aa4577041578b2716221f15b5bb054ef276cd9a4383e646a3a23fc, 0x4accdbb6ca5032fa7396c256fdd8f52bf7412d11f318c2f8293aa1c9832b849, 0x2de8a8d4960c10ee9dfe8ab018fea3c87553992f59bcbae36cd42af4b455bc5b, 0x215ae1f57e2421bb33c2b4c2e854084cea0b12bcf61a53963057a9eaafa19a7f, 0x1a81df3c791bb08768948ae63fdbba1bd42efcb009ffb07aad880b31bb8aa68a, 0x141983471c97c0debdcd4f0f085145364900fba8429e1e5583a4e561ddad5bc9, 0x176cb7a66c586ec1f480ceeedf332cd6cd5508d4b55a1a3286289a178864c1d, 0x3a27a1378e601187b81dfdd76e3ff8190d170d1ccd7f7cf333cb61f5e6a6afb, 0x17e1d8919b6ada78c9d1823afe824714fd0948406311b21a2b94d3a0d1c08a9d, 0x161d6423df64e1ab1e9db604809d3ac5fec7676d57d42ef3138d3f0d22116fa2, 0x2a5a183c02ec47c022b2f65642a493730eb86d977e599c0d57b1d57e21cbabb6, 0x2734cc336702645a5769e176b62627b0ad899e8d3ef24e84357214dea0675e1a, 0x19a0bc5a4ed65b51890c60994626f86d7cad3719879e00fd17b4db6f2ef09aab, 0x1db6087ea9f42685265847de13ddf18dc446b158f84bfa20a527d62ec9841398, 0x1d544bdf3c2f10b4aeeeb8543af54309705f7a275f093edc7690197ba3a5cba1, 0x2b1a876127921b75dbf4d7da75a6bedb7414bc5d55c998dbee49f47ce200f3b8, 0x276ab335062e36197fe442444f9d9450cb76e171c00c3ebfb7617bf0afbaeea8, 0x2fed58d5920b05bc742cb65a1d7e50dd8e6a1baedc27b6de3ad6a4fbbc259b5, 0x1f600a529dfad6ff62ef171974ad70e76f3733f0c98e0eb1b10c95f13676095a, 0x2ba35eaec2c38f4faaace52bbcc068d30b21149a6088d0467952542e9dd831db, 0x16630e42aaabc020163e87c1bf7463c1007dfdce3e1ce9c5c28fe64c1b7df093, 0x1585e3c692b27e7e342bfbb4bd4218e7ed01efe13c95daaaca62d2f5455f6506, 0x18d7cf9c098f734da2a04f93a309f774820e141f9aa92e8cfca42d8e22c61d9f, 0x646a732a7d52e8abc0441ec9b04d2af6ff7eaa085a22c0cfd82ad0243b6e64d, 0x4ffa957845e1e01f2916f2243815f8e5e3c76361f3680e259218c0d28f39f14, 0x23d3c890fd6525b7814fd3c325dee2ffa11f67e14cb8bf3de22b29058276d1d0, 0x2000315723a56cbd67692146cf429cee40952ebc607b3100f21354be0605c2df, 0xf092bdb3995305ebfe727512ebeec1ea48d29acc977cfd1169588326f50f999, 0x1b8059e616227b9a836099e9ee37329fb5a2417e3b5bafed731daaee12b9b1a6, 0x1d8e60b25f1fb1d0b97da0f17e094258aeaa40b142c97a863b245f787c75dae3, 0x1cd738d6519d3e822a6767a7dbfd23428e361e3725a95bf62d30723a414ed1dc, 0x232c85d492596d3243cd72089c50f3a691fd79fbd60b6cbbace1661a26c7a5e9, 0xde60bdb58a4e7c7efbd95b55017d3201b746e78a9a6f4bebeb51c1d6ee4e64a, 0x2fc101a02306054035ef59b60e1e3efab2c3f65027f93da20756e8abef12057, 0x3f53ebacdef572b73bea99550064782d2919436a0f2b5d9223b2da974e3ca09, 0xe27834cc8fbea3881ce43d9896e6079b8e8c9db4d77192daab89add326aeec8, 0x24d40616c713b9099f7c8f3aabbc731ef52e0e96693a746a387d8ce676d6f70e, 0x149d27d0cb014e5ce9c41a78a76a8ff7a37501def603b56bf0397edd176e0c68, 0xbcc978ef69a805173a7bf1d1d56518813032502e4a1d772ad91a9a6a7e700c, 0x6964a0afbabc86a2f491e86270ead44f49f98622b88f4c44ff86830fcce1640, 0x19342122713b66231b0a7cba1993c5d904d4279e978735fa07ce6832da4d6e61, 0x26f535c20424267a91005fd224230a4aeebd3ac079a58a78a63520d58716f71e, 0x2bc43e9309052167648814454cbd77956f73aa69b201c94fb517845a8c7198b6, 0xd9922a3643b4c9e175b57df597f10b70a46e9eda419564c33675b6afb7febf1, 0x11b438fb1df0a4557fe6b1405b6720ad4a1537fe1b42f884b841007f55c61aff, 0x1495deafa1bd1f27b7541138eae20773ba01d0d9ec10b771707955e78fdaea33, 0x26a73d4a105a86611a01bd22d90e0eb52dd0340ba7476f771190cfe587ab7d93, 0x16ddabce6e6ddd32a9f8a3a674851ed8976e0f53c1f7f6c6f5a28ccb00d97317, 0x581eba655a038de496c785d31d65a919404bc25f0922a774bc399a67fe122f7, 0x65762a6974eb7ced80ff42b534bc545ed6cde0843d2583ee7022b9ce40fe6f9, 0x17bff1a70e36b684a2ed9dbd95530cbe9b38b87d76eaeb63359ffd250b78c5e2, 0x18e68289ed3521949172f06e8a59dd9b074dc3c9dbc8203d8fcf3818c70a1a9d, 0x2a8d8ee03d5f03a69c0b0d2b1f35792747b3429f00b6e011f4a141345e5724b, 0x300243abed4b18e061fb1110abac6328ff55dc53162388f9dbc753749946b8f, 0xf2ace21877125cf2e78abe96afb79fdb5d572a369f1da4f2dd7b5776f6652af, 0x26b7e92b9f4f8776b2b9af31ed850fc81dff18f70b165c8447275f6ea5c1ba87, 0x1878b3a4fae1d39825386fae5f199a1b3b5f8f50455ab5002517cbd2eb7b5fa7, 0x62d0d89e967bb6fa4c987c0a83f65bcc795c0ea977b6dd63d625e06ffb0a55, 0xa03b278b25ae2e7d31b31082a0d0cc57c8e7a432f24ce9fdbccd93475f3d135, 0x100da120ec2ae772921c7c04b83ed8ee7682d2077cf47740086c980e04e38f6b, 0x2342223b205a2b0279d9e5f0ce7f0f9bcd772839a34c52c57d0750be1e51385f, 0x2df7f4397bfc42dcac58480f57316877f9aa21ba908f70153dfa19b7e52f36ee, 0x23622584c86a8ab59fbaf2569481d964d1e15f8073bafa8c6e92fc2c0b187fb6, 0x6bf808cce651f581a1ab25261d66b74f604b70480af6054cc45f81da3290ac4, 0xf53c972702cdee0f9fca0a70505cbaaf6c9605909dde03cfe4c337331fdfd72, 0x2988b1a79f8d22697c0d51b537a9b308f979792b1ca47cc408b8bd8ba6f6790e, 0xc41be010c41896092f74093791d90c85c0404f92861f74ba1776de6da0f3e83, 0x2f88c192a822a2a0b2f12cb349e15ea2b3f3b1c83ea2bf5461abb010f80bf3ef, 0x3a443a4b0709ebd40891c593ed528cb9e9f65eecc40af1f231574b7c9738189, 0x28f8211ec19a4dc191f757371edfb788696efc2b0b592d65d8097f38e723f131, 0xabbaa7ef23a5d98710e42a669bfa42305adfc1f8e49e05bb3abdc96c8ca73ec, 0x1f04fb54a09ee2df286b6c5e089560b8fa61e062bc90fb7298d5213491211ab0, 0x679c1bbbfd7f4d0f2c2c18d82948d060f3563f28a1a632c99f2c64a461e8267, 0x2b44d70ebe9679bf7681b2e1a3249e29b5d800109367a7a48ffff53e969a13d4, 0x23f3f9e009138f0998b53f841093307a41ac380348ef662e348de2827ca499e3, 0x24811a70ceba527ea6c7faf5762f5813591c865170d2879a08bcad496b23201c, 0x1aa535811fbb13fe315f411cee03e20a4a3c48ec6dafa75fed0e12352c34bbb, 0xae3df3e4e59c999b16606ff38902c761634e2b49d63ea716929a61e8b57306b, 0xec1accaab8a76e43c4984f380d2fd4a1f8bbbf49a16b889467f7424cb06945e, 0x1b16efc5729c815659bcb1becfd1e1948656ffadff07978d138b54349f97b76f, 0x11fb1514ae1b038db9750815dab5d7ee929cfb80674acc541bd0679b11ff075d, 0x3e8a08bcf09eec1dc2ead9784a919810cec64993eb40cd49399c2ea31ef27fd, 0x232dc0617b6035c98f66ffc4a8945d1f878df5e3258e9b542178d6ba1b684e42, 0x12b2c5d51a142d7f8a0540228e2ff3cec778e91e4ff701deea235ec7142047f2, 0x9d6f2228acdb9d4a06577ac9f8f76f2c858ff531b957f89b822a8d28df70f0b, 0x26e61018fe4b3ef6d966954c74c63e1e1587784e276ec198232b65e3d1f3b6d1, 0xbee9635b9ac510099b9c82dd622205c67f1361972265939c0c197f7c48a0e80, 0x2efc7456782b90263f57853eb2807e67a88cf15f2cc756b7f4a9570bcc38e379, 0x283fb2e8d6b18ec3f4115d0431753eb6facfe99f099ec679abd856917dc22f8e, 0x2889b870ee98688faee8863a5484afcb67874b33a9f0c1794b46a9263e181ab4, 0x5d7bdbf3df0f01fbaf9c1fbd87f0d8dc354875e451678476aea4b0ee0c016bc, 0x1b23124a367801d93b8fbfd222eb27d149ae2ee98c6b9dc30bb29ce3b501f7a7, 0x13f573baaed32aa63ef2ee51c9d25a996cc9cdb333bfbdd2b95e2a3a323b9f4d, 0xfd86c6312ae538c580c6fbe67e07539643967f075c81cfc504d4a0b51d4d52, 0x11d07e190748d15d00447b4c653b055887677d1d0cb899a4a7090ea07aa0b393, 0x1b8fbeb3c715077b0a094d76e35702ffebc4740fecca3faee9608d460c1cdeaf, 0x297423e21180784527bd90be63d021fbe8c4bdb8b204398ee1de6f3d41fcc39, 0x69fad4b2eaf9a9fd4891be5f4f128ef4cc11e4597cac7c55e3b2beded8c05a4, 0x1b351f30e204c212a5ea86b7de299b1df744d07c8ff7f7f4944514985160c49d, 0x3c814bb706f73f933bb03d3bff83fb5b793d838c2de00089d5d582183c954a0, 0x263c1482af92672f28e64ca3d4dc5374862e2e60b02c9e2fa95deca9d95b9fc8, 0x20d53632d8bd5242d9dc9ad8fabc48c6c60c6f71a235807b1b3bd0d42e187c02, 0x1312833846d4d021e6b854478da8d9d63f1e1fe36a08c6a95952ee4d1b82457e, 0x23abe598cbc971ff0b6625e441018e1ff84ea07ec5a37db3ad7ff2e18d1efdf4, 0x189b134a1aa72c806ba90d70580ee758d968c1a0acbc1d5fd3aa9881e742b784, 0x21739396f8193d4ec0154cbb302d7226e7563b803d9b6639a7ca065729d87a6d, 0xd17bda5b0f2b08f2ca4760fbc8fec19c961c0eb8219565a2017c19b8feaddcf, 0x2294fd20b62a1854819540e5560302b45403148db6e9890bde0b0a883fe1909b, 0x2bcaa1216d5737475c013dbc3d8c54e36be0196dc71ea0981b01609369d204bc, 0xffc62d59cb8ef71f03d5b7cffbdf3f1e8a8b3906c8fd25b9ba85b756f774e52, 0x282b2996448809068c25fb3430dbb5bdb038e9c3810d554d7ab3ca1fb25b08e5, 0x231b7767a4cbb0088fcf156fff8c71cbdf02b27e31dfbcf7597af49fcc99d610, 0xd52e9703d4fd0b424639d4b8173bc8ee730bc3db3c959dc1f1e36737babe865, 0xe8d1205f76890e94beb4460955ae97b5bf295671cb1d09c581b80d0c9729755, 0x9b5e2bc828abefa93a501bf75c0a67686fd8a0cf106fdcfad65a8f20ba8b363, 0x8ee620bb73422c6b3c9506a973ed0f754f9d8106148fd626cd5a04d4386800e, 0x14deb68983af2bdb376b873303e07f4672d77798f8fa8a481a22c223eb357d19, 0xdedb230d955cb9b02ba8a586010044e4c6eca8373192b5fffd1252927ce09b1, 0x16a6e90080ea1aa4e0d192aa13f701a781142373c0d9a985a4ca5a70e6ca20fa, 0x17cfe46ed6441eee1e9acfbfcf669efb386f270d142429b3d1c6a8f3d984cf93, 0x9d43cbd543486b31694bb1f856d876cf3f135b86aa0e2f45889966912280f31, 0x181457642e691657d5b2414b7a81beb58432ab1c9abb588c7e1b2da1f1e8aa96, 0x140504614839fd16f90f1a5a2a49f19c8b2e0a3a0ac67d1fa2a31ced43f3a27b, 0x120487061ca7d1fa340f11b2d6c7115eafb971569529424171bb1d3f10fb2afd, 0x1678ea1c9a9f63f1ff0d1eb65ff7c7d5c704b2a0dac3b15505fb45224ccce387, 0x298964c2828d52a1764b41b5fb460752ae1b8ab108fbc070bd1be15bb6faed73, 0xce97b6f2777c3a5eb86fec6a0ea65a823cb9bee65253157a0b9733ac6a44c01, 0x28e819231b5541e7b5243cff6f044b62e6ec5fb8adedd2b6abf879add5f8fd2, 0x1d04a29170773073c3680a0d73ba0759e80630bbb2798f4a6e77c003a145b6d7, 0x2ac32e5d907bc921779525bcb9ad4ae1a8c782ff0abeeded32787eb25275adda, 0x1f7600e736df837404f0c327205cfb931cea48bb1472ca0b45a974b6b5998b95, 0x2921dca5c0dc3bd317e0ca1557e2e72c6dfc4856fff4d705f78a7e1f55f5a3e9, 0x14f80bfc521f50b8d79457a4c2e9d7553f3f33c37649ee18a43a480ab2cd5bbf, 0x2dae059ac17079b15f6b6d0de647a6ce9af9cc9b5df5659f169be826e0ae745a, 0x27ad1fc6da5465b8b9013f0cce96db4af1dd0d18e2799b73cc5416365084a6d9, 0x13eab23fd02de014e3055b4ab42881509c6b625e04488e8ee938557c6688261f, 0x18cfb5ec775eb1683db7a7327945df44502e441a0082bbf760825fdc05054dc3, 0x26cbbfbc719cf0657d98a6fca78d2572adb2301938a1ec19bf734178c2208656, 0xccfe2f976ce2ba408e431ca319e95bfbeed592741e0bb33da63a03fc8402d3f, 0x17387cd668214f736af582dcbf86c00a80dcb77250be031c2e02071391d537d5, 0x2d9acf8eaa6d15e6da7ffab14e16353cf737f7e5585ef9e2e43acac6cc879742, 0x393a4c1ee837afaeb10114ced12f96bb9084dd4a4c2750d700e876b6caefbf9, 0xf0407a7118b6910dd909e894966b42440d616da403e0a07b3f86f4ba8011df8, 0x2f7735765e2789fd4d05c78350c35c6b84a69a74c7f69e0afa99342f1c6cdc39, 0xdba9178d2ef6af1e01cdc2de7e85578418c26adbf376d063cb6b5b1181f41b4, 0x2144ffd569395c83073f882ecfca0d8c9428b32c9469db7760d3778649fe275d, 0x2984137c5e2012d8bd79b1d59087915b997a8aaf568df355bcf531f4014377a5, 0x934f3b2191291cf3e631822087c19f835a28cc49b98742783224ce6cee8588f, 0xe0ba5918aa4cbc38c47648a5b28d83c7ac2ff68a4127ece98836b5429ac3078, 0x49a3734a8e2a2ff2fa0a01e5a6c3ccfe37d09fed6c8f5dba7ef4c46b5d33b9c, 0x29fff8192128faebc6fa8432c1562bc01b7289b3fb5285e29d12a3556cc0ac49, 0x2201820de3cfa4aa21637bc742afaa39c3611951330598e61ad3dcd8190818e1, 0x94821527657e717dc177127a1b10531a2a9d18f9141a12e8c9f02d1f7ec1a1e, 0x10b58daa36c56ef2f2a4dde18698e272112fcc01e68769868e9ef1b5edbb4fc6, 0x29dad68ce58824ba5d89b7b3e7ec1fdd95c253a6b6ab2b6c418d53a57e3ee8f5, 0x1ef75d0df2fe249e6fcec6cf55699bbd616bbb1dbdb384d6aa21f5c6b5793a6f, 0x1754914267b0b09a948685fd7d60692da6c6bc990d3bd86c05d1409132920a37, 0xf593c997ae0a9426b4fe3054b60635374a049bc55af8d13735a0a903919a66e, 0xaa91854cab67a7a1e2982a8e515845a71913530ff5aee98c91eebf79e361825, 0x12f2e653a73a9077367b6abde35ea68cba141062ade7d3583b05da2c8f0baad8, 0x1692c37f96667fa62c619fe1a0e79abdf86d9bdd7241728228db6009ffdbf437, 0x4e833620b139d50e033dfed3b39394574f631371e31c2bb0e9c44ab8a168490, 0x14f13dfd3e5881a820ece1fe4844628b14daab9c0fbefe88acd1895c43576619, 0x458b78330d7902b4e84f70c250bfa081c92ba1de2962e19cab628b18608d3d9, 0x2c52077e5bada6cef5397019391717264140b8a99b7d2fde520ec89d31192312, 0x1de2f57c28133226450019531ae86d160a0e72809f01593c1771e4ecca7a23c, 0xa761fcd234c2bbd661bcd788f5b14a5ee4255190b81fd3153c003d68a3199a7, 0xebc974e17f713f3ea0d8b12e463fd5af0450149066d6e72322d8d0e1e1b6831, 0x1b96e0241b7221a93125215256ab608135b2214e2f04c127a3e451d7f8f7787e, 0x1df3623a81acd17b0eb45cee6638d1dd1e84966e38cdead88ca5f9f9096fbccf, 0x208f1193b74f48f50021d1c0cd977dbc6a55e2f68ef0ef0000cd21a38ce5bf08, 0x246352bb36eb512ff4f36fd8df72042f69cf67f1744521898a117b6efaec7895, 0x30e94ff4018a5a9725300f274a619de490177d1404dad9a8299ef29e0b04f1a, 0x1f52354035e44ac050ee86ca631c0e45eb5f75b44d6e7f01b0805e28066accca, 0x2659250e4f2ecc3d3cc5a1c74355aa01f2b4c3aeac607f7df372c15b85ecbe3e, 0x1be2311b78b5c1246fad8a8c346e83e6c0822df59557588b5511b4e821e2bf2c, 0x509b5de4dff732da434372972b466d1154d194e10915b4347dfd0665a72bf9f, 0x3247680850a5862c08fbcb0fef6c739df1e88043c3a5e73531f682f93f8e975, 0x2d110540eff687a945010e040dc40497a3d1360b99073babd6911541d30be5f3, 0x7ba21b3ad4f133f69627b211c12f3244d1ab553ae6d6a1daa888d0040b07779, 0x20077db65156a8dfb7c3160a81d62e119b2a861118be3dd509cdcceffda88d10, 0x1cfea2b8984b62b28fbd6b8dbe134240e2bc10d6bbbd3c2f73a3088710b09973, 0x1549ba97fc538867506f349929a7d1b86213886e8d2abfb60fce0368798fd294, 0x246252ab7cf345e982717225f954e74e7303ce0c9b1b24b1dc06fe10fdcee4a2, 0x2b750d77da95774f2bee129b314d1c3dd5e302b666c2bea46cf886585d5ab6db, 0x236fd4947774395d7f9423527c5ba34cabd6f7a9501ccd33353234922e896e16, 0x18a4917affbb7751667f7629ec085af1a902e9b5471a02c89e05678d620bb0d0, 0x2ccfb77f9dd97d7e6a8ba9ede42364214c52a02c8a0a420ccd0768dfca171a1, 0x18db49b4f99f685906f772938980682572837a1370f023d0fa379fcf1c1ec854, 0x2040dc09e877cba004d4061b3701c6a92b03fca41c1dc6ebff525c76a1f9f7eb, 0xbec5c4494c0b5ddbbdbcbc6fa88f438305525b4c08af59860055c1f8b73ecd9, 0x2879eec47e729739d1f79e83f7a71e631eccec2c83b43dadd6ee56841f83a1f3, 0x1a50c3a018059042e5ce95a789914e5c2800b4f4efe17336c5b2a216410018d, 0x1950b98c22b8f3cc855c167c7d9bbdfd4ea37aac98b12b1fb017257c3e7f293f, 0x13b7710d9218c0b169ee4a1276715274ce9a6468730d2de7731349ad1ae9df7c, 0x1ef80d90805ed282fa4f5e12843ed4abc8f22f5b59f04ee13349209a8bb581ee, 0x13abc482d41ef22b6e3d0db9276b75599044438af8940b5c8d58e7dfe80c44c5, 0x267d61670e53dd034e795bb20c20912163a58248709d5aba8a95c0dfaf50b02c, 0x24441cd1cd8145e42b471f82e4f7f9c28d45ac2c55e4e60d3e66d74e8b56391a, 0x355fe883f75c1a4353c1c0daceef2d3a71a9a74c62053199e431b8fa81cb8d2, 0x551b53fc92ae63c2b2ecbdf40ce937a2095fce0647482e64a0fdf515cf42ea8, 0x28b6aaa4aee256071d9988bff1bcc284ed68a7614622392e53465a6ea91258bc, 0x2df31d847dbffcb0444258e69876ed3b7463a49454be6ab6250a8446c6a01703, 0x1bd22453d36950ff1ba1b49bcc43f9c9d4ba388b780c43f4ad3216b9da8da126, 0x213abe279cb897fa749b6e98180a1c8225558acd88667bdfa14070baa65dc812, 0x4853a8eae790c34e5751893e34ba932024d9c549c7a7751d536be9cc9af6b94, 0x15242fbe31477d9de0c431d25d0c8e35d489dcd4c99fddf72c4f0ad4c492dd4f, 0x12f6323f31e14576328957a9f393451ddc868aa57692ca327bc5a169e93aba39, 0x1dda2035b7580e63bab28535dc392f24085d59d0bbfbb54991ba3ee9563a1899, 0x13251bb73a28dae6bd498501db9e6c58c4f9d458e8695596669b2ce90007629f, 0x231ecedd2828136a0f76ddcddc58f9cb3a77ca05c4c0fb95ddb696040391328, 0x2002a71a926fce26a1e77ee49f68846c371b74ca7addd66da7ec5286bb7c54ab, 0x2cab6f0f98bf107f345e22dbef16b15ead94407098a933ad0591b3c4500238a5, 0x401a74a17b514f0532e1b9b4aa4421addfec7269f934875b34d4f73cf9e876c, 0x27c78bfa3d246da84fcc765ca8b00ecdf6baca2c967796a8e8c8e1c501bf5b43, 0x18ed98acd2c8f140ad3d56627d9f0e8b41e84e30dd1c165e4043c1c43e32f663, 0x188d51f7de70e218853c44a40e505b38f45caca8c92d5090d474f2d01530db18, 0x1930b89b3303134f1f900880fd7c39c7ba00a96a972fc4f43b17e19e3f1f3d4a, 0x1fcc8426a4936736199ee6829c5f3bd947cf62dd0a92e7ad4af4cbafb490b0a8, 0x2d3847971e336844d626b6c39ed253d6994002bd07ec946b521e06e9993a2d48, 0x24217d683b98c9d630a704c3bc4550cbf70ea14dd4dd770aba45b41ff3ac0301, 0x28aef269e0a3dee65a1df434d1b2ad4dcaf8e840b1a1d067b353a2986d94d35a, 0x238b3d227a012ae13dfcb6f0b06511b9a1d7dddf0093299f0400a887a90e070e, 0x197d7a63493f21eb3e99111944cc130269461f7bd88d302f8b357bb7d686817d, 0x1bdcac988edb00a3505567ded6f9440a542df09e20aeb013c43972bbfb3ca7b6, 0x1169171163bdcc2c0c8bd9e56b1fca66e44bf61f9243343cdb1e131cc034b0b5, 0xab66abcb7869437b24facecee1c89b18ff8d2d024046bf978b844a1a5dd123b, 0x20b9a555a8b39f0cfbc6031a7ccde6c1185abcd06e3f6fa2c6685038b874dab2, 0x32e07028d1fef76b7ccb9dc54ff4f41da1031ffa8952c64a5437983e838cce8, 0x1573694373095bc3106e92b6b627ae4c7d0ff8e499cb2ea426d044eed818cf08, 0x1a602dfd352e43ecb2f69fcbd568b60a140ab52fa9f65b53af13123d511cb04, 0x1e2bf4fa574ea907efeb285f6766b4a17db35bcb6186c84a04602d438a6e3216, 0x2505c8d417739f21d2162110db6677017bdd46e9e105bd4a3d56147c37327a0c, 0xe654549cd7da15a2808d06d8611796c000286fa77d02f6a0230debefc88c215, 0x6fba732c616c7828cec557ffecd6e3ae22aeb52c72a210e007fcdc5c3740079, 0x1658321ad9c3d0a3639efbb9e23aff309512599f0df251998bb3b03b7ca5692a, 0x2b33052c618387b8b667799bcb8566a6b6fc5e2ce3f9440d025fda9150d4a82b, 0x1410b1ae9db218e0ca654de70f05cecc7953ce710aefa4885f0863b8e03470c3, 0x1848e80ed144936e3122de3c706cfb707ea3fce31047e632c79638ab01dee1e9, 0x27a27ffd5e7cfa1dc5541dbc940085bd3dc590b21473d05384f8c463fb2ba936, 0x29b94126f5536a88c763d0301ae366abf2486bd300db3123762df3cb93d1d986, 0x2d5b96cdd02c61014a228fabada597a65e1c5757772248009802bba450b6049c, 0x202c5350a6a37c6f159112efa516be970c2f88e16c01aa8462d62ee4e52043e, 0x2cac718d86bb68b80cfc3e17cb740609d425aa547aee14f9105b4da9490da8dd, 0x283e1a39e8ac0b1913943e8618a19c89c5c74b58d59299b11fd127f02cfc9891, 0x11a6bcf0ee6b0b9f6f62dc0c48168cadd576e8d86390f85c4744bd70e3c1e967, 0x126821771411186adb55ed7e59e584832bb8c3544ded7227e8d707a5b34d6137, 0x1301d280a12befc02f9a13f3a92501da7208279bc03d99e772da490e7ae069c9, 0x28e729cd9ca2716cf5e82b0c1547ff3c48958ccc49f806f9dfcd6f8d90b2e422, 0x10ff9267c3b191f2fb37450d4e015aa137b25f12294430e936e8d124a1f98d5d, 0x2c19b499d3dc4f8545d31cca6a58a6240cb2cd5ce0204239dfceddb2b77d1423, 0x2f92727812c862f5ab2543ae88bb5539fca6a97cd331fa4e5e02ef7231017ee2, 0x2b9bccea18d03f5de4dcb9a4f10ac80fb44be746fa5bf30724fe04c0d576814b, 0x1c85bb1761d97e4a576faf5c53b9bdb479a0fbc37818dda8b2abcb365e0a73f9, 0x7dae9e87df37a4014d11878b49e0571628a20ff3e6a102291d211b8fbb1ea8f, 0x2b9b3bdfe342987935c9d780df13f061f6ce9a4e6b470cc1bc7c7aaa53075332, 0x12adabe287498be9ddfab24ef799bc49be7d58f069cb49bf01c9c4b1505d0586, 0x2b206a11a92edb5474ae7ab65b8fe85d4503de3b6f4330767f938e7c67060fc6, 0x1f540c4837c4a4a75d8f830935c6d2e4d731f230dda7ba5052a50d572439c019, 0x54db8726050afda0e8a0c6b5eaf5f967d80fe0e4b85179c163f36970700d2a7, 0x2cea9ad4bafe136cce349fc6eaae2db05071118b4b82f2598a09cdc8db005af6, 0x252f699ea739d55642ef8a22b45b58eea8d55900f8ed7f391fb1f077d13f94f7, 0x1f061b04b5f927b2108c7b6be795c3c9314965107000b13bb63283f41925ad89, 0x8459eea73a94af361d3c656e75f97d27f6f1e42503fce8ecbbaf19a29186835, 0x1b3d700fe7f51953e2275604d391f136c1fda986a3d30201ed0fa140208ac812, 0x28e56028798196ed5eb0d88ed905d5b0c47e9d6110c75632a5a2ee8a86a4861d, 0x9bd90f2333c4c2cbd4bf7eddadd1fe7a91e5b98908afa559781d98a257944c8, 0x15bc1a6e6baad5f6b0c2ae3378a252b14299e0af66eccb6b266814278ed1278d, 0x19c52f0dccaa44199a7f4fc33bb47d41d6a081cf36317e7fe159e8fe6b1f0a89, 0x2547bb5ff20db5e0c592983e54fc962f0f65f478598b2cc5fecd72f169489a9a, 0x1ef0bca70036f3bf1d7d3f294c8b0a1057691172793c5be658b8d55f8e5337a5, 0x4198d58ecdcfaf0b9c2d6acedef52537d1043136b624a5a1f588a40cdeca52b, 0x2c5edf565ed2065d7d04fef7d4f7e1b1722a2d064c00549725e0715947c26f4b, 0x2bba33fbd4a8b19d6cc52859259379a3b46a9fa17cc5c4570956503ef34eb8b7, 0x2e98fad823aba9aa740aae084860f04081a58de39bbb101eefa119cd6a471fb0, 0x2d20c2cd090abd0533aa05e4b25ed9479e9ec4b21eb59c765637083b87a95921, 0x10967beee9da2505cdc53be5c9837672e8f3729c6a784b013979d8ab8a3c0a89, 0x121fb7ac685ef13f74ff829cd18af140bbed250db5896f0ffceba42d5d803a3f, 0x142e085876884e6572c868998a0ea31776f38ab30e6c6ff74cbbef141dc906e, 0x23ca041ffe1231fcca12d630c8db597bd844191895714dd1623eafc2056c1bcb, 0x1a30767b5f4f01d00c2b01a44f01b5f136a5258f7a513d6f7d0627f778970d51, 0x1ba0ff653ae6bd81573fad7901533cc794806aa616f1a263c06fcdf07039d741, 0x94a5945a881842d8067ba77e9e699ccfc74ee8517620e6b090f5627bfd7293f, 0x21c84f232883c041a078e1cf608ec1f30a07b8859f6eb8eef7229fc6bca86f03, 0x10f83fe52b38a091bfad07decbf295e8610c63112873bb05b7ef08f7043f7bce, 0x37233401e03f5907192e47e733f792c15520c7f4975a82877db6dea638fd4db, 0x131743f65beda2de7e4bcfaa7a4bdca39d066f9c9d571529e62e7f5ce47512a2, 0x2c3e6fb700702366dd46d37f965a454869d6a3f1b8efd90cea90be0dc15deec1, 0xbca2e8dd5719f2490699eac6bfc2b3e7c6591317c76ffb1516d126ce3ec162c, 0x9ead2ebea129a56023afa72ff1b77c6e867a72df81839fb76c2523f9452205a, 0x19a210d7be3606ebf9aecd9b0c8f3ab0bb04099584bce5a7ae2a35a0f808ce6a, 0x1b44df05ea46ec1231818008eccf838e627afb2ce4b7798aaa86f609c2423634, 0xe4d978fa2ed0507dfa47dd154b51006d25578e18d6c9d83f8735e6a0cb7f1c4, 0x154e4d1a506fc0c10019f2f89d186f4af8a2d1b6ac3ada831ecb00f3a925ca6a, 0x23f27f2464c116f55a5b7482a1cf5e6c7bc99f12e28fbadc6fd4826072eb76e4, 0x2df196c92d5355817805c6cc3ca1029440e27db83b17fae40c35fe3518954753, 0x2b7a89ad1419e85f4d414f1a372feca6aabdd69f721f684f34fe829b2048c8d0, 0x22c29d74824817a0423ab1d70d5c9d5249b16a181034550669e7fa357d9dc33d, 0x2d44559bf653c112918fb033c8153bdce449b0f1e769e46bb91e5fac97ef7cf1, 0x21d70f181b322f74ab50c432ddf9736a1e3738c4e883625889434da50d884c8f, 0x2a437b970ff32645bd5303f9474b5743427333c6663d17f44d918e9f2ca005d4],
    M = [0x196b76cefdcc7f6a54c71d40114a0bb82694c936f1573ac7ac1ea3fcce1fe938, 0x1440dc2578f44694d18c25f892d98c23cfdb87a772200020e897823d4bc84d3b, 0x23aeeb0c6499b84bfc32ae3c42df9728798fd2ef774f1518b870bc57d1385900, 0x1ed9d3e9276acb7b4dae53eba148806fd9bb07b2dd06187212fab7dcbe63d72c, 0x2ff57f3f7e95b03411db790a86647467581197124d217520ef2e6332a5b35185, 0x15faefbf8584a38969b4a719ffe5f02c2191a8cceda0b775162203d30b80208b, 0x1e6eaab1191593de0d89cbb2399ab8aa955d829ad959428cd539be30b72fde9c, 0x2a3bb020c8a50d310ef5b5c77cc408b077fe2481454754c4568ff668fe5f0974, 0x51f815c454b6015c7ebf90c297b90e9604cd36acc6af07f99b5e51fdeb32234, 0x28b75c2ac167fdf184725317c7bbb8083e5ac5bba937bcfa6cefcb69e4048bf0, 0x23af324599683d9b71b61d093d63dcbbd97e44957333d2697fdd060c1e4b585, 0x5a07868a7c95f50a015879fe7cdf1eb6c317e4d489d4515208ddf40a32329ea, 0x2c5b4a65bc55ac5fbeebde53ce5fa68882faed2a92a7b3f5732832c72f7f2c30, 0x173f895e472c4eb16a2aff3b8e0417fb32b83eb1e3233471c76a0550505d0607, 0x206cb038cc328526d0c3dc5af19437d83219751c5ee8f61b0e9e2f5881366be3, 0x240c57897161666f28d000b88d3353921d967420f401ce86bbee42be287a4f8, 0x1aaefc2e9925fcd453996fda804063fdab276b37c5f51dfdfef9255b4ec10cc0, 0x130fc54477fd953377fc23abbd7a41be6764892a8787c759c1440fe0133c852d, 0x65e134cb8d84447d6ea1e17932bd4a341ebef2568313c24594faf9d7eca2110, 0xe76c40392bd5f458bc187be54099312a0fefff44b441637020eb92670a6fcf3, 0xb981765ecae69dd7af3b10ffa424b8aeb206cc4f49257265c6753b1cc54ebcf, 0xe4fb044a9fcb4087e351341f25d98b1399b576e2d6654534f348219a0acdf86, 0x303e39ca88e8da6e5c963564712df8a7f8501a7af4a990e4ccec19e5f8fc805d, 0x1b77995dbf30cc55f9d4cd4849ced949349da81239a015440fdb38b876abee5, 0x23643add30be204734d029cf034c958144551060c1901c420a28c9688ec36a80, 0x1946a26ab8953f9be558105fa5179f175e76a24429dad5d532c2ceb3cfea05c9, 0x248b533f875e5ee8e751cefa4b1d0732fcd30151c3a5cc4abbbb1e93b4655d45, 0x2e7a1c51da61dd214a1789d6f1ee2957f69d21b1f16d1f9458eb25a406500bd3, 0x2065e374edb1f3cbbd2919dc04d14adb07062dd01ec1501b85522e7e0faf925e, 0x2f36535a83a09cf09fc38a20a725477aec56668f034a364a9f4a5605fffd33cc, 0x1123d3c97ff8e6b589d118bc40ca0b9ac12ae909558f2582551f7a42345b4621, 0x160b30c874d9c06704c92c266c7a5b7fd966a62a5db008f1bffdf443b1099a82, 0x1361d27c42a7b4bd6eaeb98a339592616c0d4d8fceadfdb16468162bdfa88d46, 0xf1e8f86860c3b5c78bc14dfb67d22c6beb8992123658842f23f75ae3a92e99, 0x2c9c91f48661771baeef6774578a78f69c355c8e907156fdf26db39d2446413f, 0x2c6b133e80abef84904fa4a75f968fbaabef890286d5fd11b87a1e52b7eb6d0d, 0x2ce8546cb59f420ede61692e764e0e9f6715b16a2c8047cd8131c97646f50d24, 0xadaeaf28776b813d518f645c793e57bf16067fd80eb921dd5a67e895646c9c4, 0x2086a01b816438a2a41c59e43d73fa9aacf0c24e4f6bac229d65fba59922554a, 0x2348580de49aac01ce8fcb5aa2b467f6787dd8a96ccecd6fb47df7d5a4307398, 0x1fb6bd6df650d27e8cac05ac0b45eef0700e308b29b4bd41eecff58027edc45c, 0x3e9718237c1700d7dd213e026f307e8000b3851467fed9e6f51fa5020c2369c, 0x925af35a3366801ac80a31d63f745fa807bda10560345ad572bef4cf2ce0d6, 0xf8692d64a5b69a956c4e2006bfec344477fdf5f0c9aab866609842b9d75269d, 0x2bdfe7eb4fa803bc1dc0052a46d850ee3e091eba8a7f12579682f6f6fd5044d4, 0x13bdacc137bbcf51d8bc9d281931d6e71122dc6e93e7ffe8b835e3393775c3d4, 0x7d78ce0c1c87391a06a06c83d300d52524b29f183884e300e0eaddacd05f068, 0x984c132b29a05f2b506ca07c06fe9a6584f36bb87506d2d316a4f353cac5f1f, 0x1b00faa85136b1bfc496e0ea9a6284cae525aa96612ffeeb514808955693879e, 0x19e1e46536704ceceac3eab991bd806e347be40a0b7956dcd7037352fdbc4347, 0x19c2540bbb1cd4e08f105437063c945cfef28ae9dd50b97e0b795f8dc5ae34e2, 0x1dec0bafa3e8190621e5e095ef751ea03c836dbb8045b2a73f8d397cfb815192, 0x27c72332f59a00135baa94bde294911d135d1d95f53c52eb8b3b95594374906d, 0x16e64661144d816885b32f3f7809703477788268d57c14b1d939a26b29cb7ef3, 0x2018db386a3e4e57eada8d91408b155061df050140fb22f9a4f34fb4e2d02428, 0x12263b7e3f3de60899a2c22fee919972cd79dc289a87f31f1b44baf2439dc87c, 0x10e420edcb6da76170b24d777ce9d31612edb1593ea6d30e8cfdacfb6974f991, 0xebcb358f95f84b719c631d4045cef03ac6fc238f6834522cebd02e47411bb6f, 0xc48e2f304f730d48e83dae5c78a46188500bc8040a49542eea5ef1a21b9d222, 0xe766f03afbb7af630eaa8aff4fe60f3810f30f3f4438498efe0186333dadc0, 0x1b8a7909d7e7bd4f0bcc8003968e384ac2e8b405ad05cf610364d3ecb982db7e, 0x1d92e4213d840a330ecbdb08693dbf9a971bbd6229047eb88a03f334cadef227, 0xd3b3fb86a44b7422429a249884c85644af1975641206e610070c02ef5a9f4cd, 0x25c7e8faf6c48a156cb91d81a997c6673d32694a3fdd64f5e9594e9f504bad83, 0x2d7af834c9cdf1b38c8cfed218f1ef0ce0b9908de9e7aa7a5510c4fb917a0281, 0x175af5e50e5685ec2dbb1cf7a2cd25d45680f6cddf68d7c0795dec98b87f6a71, 0x121f4a18d7b7d9650aab625ebe8695a8079439f2ab00c090279de74726234e6e, 0x21f08f9b3c23f3a02518114a96929b6d1056eb4d1db147ce0c8882e1b0f7bd1b, 0xa5f52ad6ec4a8aa377d8dd2ae3aaf6eea0c68c63a1d034fbda67133ca0b85cb, 0x87488f735b1fe2fa3c6c7148c4968e7f3479b1418a1a566743c1ca215dcfcfc, 0x6cf0db92f86b2732ee5fb881ef0176012dc4adfd849b9be4de17846a6ce5d99, 0x67c4411745db6c6aa659ec737a586a8f4a1cde0352e30aa0063794865fc1c04, 0x19909241cac50288c0d12343e0c12cf9b9790b405ef0a9001aa6be0289063aa9, 0x1d25b94bb7c49c0170ee1fb2a5824b70e4554bcc54b6c8f8cc0cc9d74f19a5e, 0x3274e735db2faf186787528254272ee01967e6ae9d825141378b8354d843965, 0xcac320362e235b458d6d364cd0fff914f3c056adbb038dc2a861a49f7f70e24, 0x1111ed7a66ba2ccd4bea0d43eec86ea35ab40253a1209e3637f103dcb84fc429, 0x13e736cc70b7c828a38dd6394ece76b9ccdae2ca4f43963432502fe8c2ad19ff, 0x1f2805084976b142f7c74a416ff439ff1bcd8b8e7b0570130040754a61b71912, 0x27aa50a0e5d5588c1486e8e7fc8dda65489fffb866756c218f87e7280cddfa64, 0x1f3cc6f65d9d34370825a38fd1f48f509f7c56171b9e7a624d9b0ecdf6ac4eab, 0x1b11713791ea4cb2e17c8c5867502043d0a8cf955384c1c793c506b75fc0db29, 0x104560e95c49febb7a030862edb3a33c2b2a3d414b0536b2e54e25ab36e8f281, 0x8c45f3c4c486f6b5378c779c607b517200bb70b5533bdacef18519f625b925b, 0x2d2193c677bbcd56a74fc2ae50ab4f2cc69aa77ccfc33c7707452d5adac77edb, 0x20ab7394bfdab344cbb6f2123800a0e23508e2125bfe795ab4a767cecb4d9306, 0x19f0e2e141896eae6d56d182b687b8a6c64cbb59e031b749f35822fc7ee353fe, 0x18f754a95b0af0e4706ff9024bb135164abd6fc16ee40cc2d6852d88a2ffc9f7, 0x193fe0e9b48010fa319c33b86b6b18f428f323fa237ca918a38faaa91ba49567, 0x11ff091dd551b6d586203ee0cafae2f7652e923aba82574a53b632a066f4884, 0x1da3e00601ca3fc0d90b197bd2a474b46efe3aff3b2cfaf1ebe15fa1afadf2db, 0x4ef41945559c1fb0b2116cb2be1f043bfce8dbc96feecccda47cbf68be59b5, 0x2f053fdf1a72d6ad8c9df97a04d637916f25e3425b6dc33e99ca7cac5cc7e4c7, 0x1daf74842c7e79104349ad399592c5c4cce16f79e1a86f50d941598772cca953, 0x2ae8da8d0b129a22f834d0d234c8917c2f877ff00dc16215498d4b748fb40df1, 0x99b0a6330926a4a1564dfe94f9a1104bb8374bb518a89de08c591c17dfaa059, 0xb9aebf041146c119199757ea8ceee5abcea9ec42cdb28b921caf21e84847851, 0x55ef271e388278b1aca34d3cb00116bd6f7cb584b3c69f0de2a7afc8d98deb8, 0x26fbf1a351963fbbdab590dbd760ce6284273525a1b46c41f29226c65339f4b3, 0x12fd67863b2e03b6fb45224fb041ff280e936742b54c8e54d3823e090e144169, 0x600cf26635b2d546431507589739010d1b757ceaae617bf95b8e1efa98643d, 0xf528f5912be49455d4323b259e30ce2984d8170601eeb4bd7096b47353ab7fc, 0x110ea322b0c26476c67bfa2c1b9d1713f93b3b9cf8320ce0dcd4b64288bda07a, 0x299c47f1e3ecc557ab1c9abe36f0d2ba0ece01051e07f0858e97a9ce16f5664e, 0x1cc053a6a4d6f96da77e5e73adb9d49bc4d0ef2cc2f69fade48040b7f8d71386, 0x9558ecc58bee4f3c578f62489dd900840a9889096c0a62114aa2db045a1d033, 0x93d7d5563e3ccd0b5f15a9b093fe6b863aacccf9af11ffea9b295b7dd42b1f6, 0x45dc0579ca66e7e096d4dd86b882e68af2d35d70cf5e3b1783caaa0ec424253, 0xda02f6410e24058a1e90412cd5302c57197f7b1af2a99496f9cff3ffd58808f, 0x2dfb6dd598ada57ea71a8d68e6924608f0ec7838808688ee4b3fcd521f7be6d2, 0x1057062b40bdcf1fe2aaef45898c871146799a92c87d0fce64302d6bc83172df, 0x26e6d18aea75a94861a02333b5364ceceaa78adfbb742817218ca3af607b910e, 0x565b96659025935d9c025c7ab20b1611db00b67ecc51426b342f8c7a17fed83, 0x2776bde52a1259472c1cc020e719f82191dec3ab7699b7d0fd769dd3fe392997, 0xc1a324c49d15f87931821989b8c8437ea9eb46ed3aacf8895fd1cc311053e60, 0x27e68568e9cffd07f9253ef9dbc356251dc6b2d6a903d6c7046b5e90e1bcdc9a, 0x1db0e7e01722aad210e5296c36e9103e82d15765c318134d177146a1d9fd5358, 0xaef8a4e47d5ec760e0565ae7acdabe7e8e98972de86dd2f447aaf216ab4cc17, 0x8c00c4e5b3467f01901f64f9f89c15bb0b90918d488b730cacc3296691e9200, 0x54eabe6131681fa01fbc6dbf3e7d53595d0f8809987182142b890ac8af89cbe, 0x1a4befe11c0230c62de44ffafea0de903ba328c6d67af73680312b68f9acffda, 0x1e40665f5bb8c5c0dc9c11f39d47e9d33e717afa31ba74f92f8737a55efe134, 0x23c4abfeb83192362aae21b2e9ee5cfc765bf1000f798c3ae70133556abc78bd, 0x1669e44bf0223a77f48fffbc9f4f20b5814f6185ae11a210f8fdfcb5f71d603d, 0x2d5b3f523a9668cbe4887881bf7b40184f978713e358de270d87a600e5c5c92f, 0x10c1856f282f556d7cf6d4a293621506724ba6d3c582e4c261842f2a4bdb0ec6, 0x22cc4349f6baa3a8e0b61fc40ab97210e4bd3b3dec7f05bb8ef839c84692afbc, 0x12d019e37cd1bd76fee065bb7380a9bd8331a4dbcd1c9c776792bc19045c23b6, 0x27aa38fa051c434189df57bafd80723ee29bdccd59fbc1aa9af11891d3722e61, 0xf0b9336db5c16d472fda3fb9ac13b13394c09ab9f484ecf6ad2060217b5896a, 0x275a6f59623354d71d38b4e200ce2e9676aab74ea8b8366fce33bdbc47d0586d, 0x2ebb6730d7bafeac23fc0b457ea824eeea3c55eca634bf24b2ac2a9a21483e1, 0xff215eb1e38dc67432e262df27eda7c3aa9419d5b6e299bd948e970fc35a62f, 0x247f9c7fa610322535feb0676cff549f1c177d0d39d3f1eee642e9253aafb82d, 0x2ad0bd9f71e2785084aa0b84616b7dada053207c418e65f4035be66a0cdc8c12, 0xfc3ccef00d6a64080abbed4fed90b69c5e5803134c22b42cdca0a60f03ec33c, 0x224d811fbdef8ec0a006d376a019e57c93bd596213a07823b7d4abce1fd8e621, 0x140762d30c5c3a0b0750b1400a86a9e2f5cfc2531b729370f3ad9fe1dcd43f96, 0x976d7c3844bc8deea0f0337f89b2a131302ffd2d0a870181ca5fd5fb6d4fb63, 0x152604201ca7df05994e9d5f058f3b6749cea63aa0cb5b4e1c3a00b6667958e, 0x1ab6d8fe39f87bb0ee5b883eea2725caa52c575740d5ac30b058f77113d05239, 0x1b62ba8037a83f1261544c307f019dbea1cc6a84d481ea8960b0fc670745e8ae, 0x239abc7c9f866aec28685c26f4e046a92d4360d36cb50890f422e18ed6f8a7b2, 0x2fed5a03200417664537df8fa30276b85d91bd2ed21de33d901fb4d82439857, 0x996cae74d9627ca3c56c646095f39730274d25e82c42ce21cf789253d48a3f0, 0x304dbc0936862356e0024b2a32dfa3085abedbd337f22b89062be614d83cb083, 0x2a7de8f5ff476d81d393f1d274636ca956f05bd422bc9f3cc0fac0054b58cb02, 0x12c6f6c83a3530faced60c88f19a82fd12b7d938a79864ed20a545a52fdce11d, 0x201e03f1ff672629473a24f32d2d502acdc8fdd2883014de74c98f40a195b3e4, 0x118c3efe920c9c3f907c867743d35d2ccbff7c89e9c31bb6a17c552ef92b6c01, 0xf705feba5f01cb27b27c104bc93f0c974f561fa26d5614f6a9d9e47d03bc655, 0x28d327a1c2d6012d9e69e9a3b4c11ad336d3c0dcdff4c5c84ddddf911eb645f5, 0x1bce67f4dc99547f2caff1b5c6d63e3ee2565a404190664533c1c65dd9d8d532, 0xe691fca423128a7d4afcaa582b1a94799ba1f5d2a5d53bc2bba56bbecb227a1, 0x180aa4babfa7539753d9c222e5e3359aca59e06bbefc7cf3a3ffa4f961fa1d5b, 0x2c54287eee368d5d52dfb068282d68e6b09b76bd1b5c9333b36848ac277744f5, 0x2f65361a4aed320fcd03a45c44dda740213571f3975ce20b96bffd960cbc6e25, 0x235bf178b5b56262d988bfc62708b0f85d57385cde2b4dacf9e6d592deb2afe4, 0x1794ec2b0eeb22fbd753b21fcd949e7bedb305f15a59eaf74a961c3046635f85, 0x83e1cd5943461ab505b200311bde4003fb4f7ed16aa58c8bc28f2e08e9f6922, 0x22a67a88776982d6a15f577dcf780ac485ebaae6fdf6fbe50b95ea266a7b6059, 0x2d1188d9e7e6ac24c4b2c9dc3dfcfb0fe4782d689f31b94b1fb15ef29d11f19e, 0x265c43c886f07d025200d56cd246b01670b3e82ab482f5879b10608cc05a37fc, 0xf26d05e938f8317bd608eff0895d352dca712b653b1492f8c2ea96b26f9381e, 0x257689a4e22f6a8768aafe54218d31de4e409fdbf42319582536bb583313a395, 0x1edc57f174e1322b627c6f9dbe27ae2703c3f11c364b38188bf41d8ca0c1709a, 0x17b39f38636d5eff5e06eff089eb56051a602bc8f4bf1bb0ad2b2cd10cf07138, 0x306094ecfe63300b2f95bc98a0406c7898d86852330a7b69f9b04b5404b3eef3, 0x11afecc85590543bd2df8ab952be164670a3f32593e962d4bd493bcd3c84f84d, 0x1a8ba4f37d2315389c8560d74dac572a4447a02145516287053e6b9edefbca2d, 0x189e279c92de0bab66707e6e6e310524e615cd4c6aacc665372a3b8e372d8ce6, 0x17208ea9cd4dc1a6deebe6a8d27a3181ab5f86c6a706e6fd007fc1eb678e9de6, 0x228a3488cabbf9f29efc0bce211a09031972b37f25ea35aca840dc2331a0cf35, 0x22122c6313fc9a4c6d0f944d3ce238272bf35147b1b788aab2b8dbceb6024c76, 0x6649a13e65023a713aaee5387d388e3609ae9b14ba4da10642ee0b7b4a16634, 0x1ed4c95c6283b45ec0cd88f511976f063ea2beb0695b8af7cc10589593a7978c, 0x15fe62a69b0438294395da1bfc93272d88797ceeef666ba2443f0c146f8ab7ee, 0x2b079a1d09b9d4a76d4e50c45c01fb7508b1c443a8fb21ebd28533e05def8864, 0xc34496a7db5abb330b2f6ce9adaef5ae6e308c8fc2c5634097ae352aa7457d4, 0x4ffe27a92cb4300e774388edc3147ab9dcc4ab354c380f51ca7a2e7fe0463c4, 0x28b73b335c72f0774871a2030d444e5fb954979c1c568e112fb911a46c666768, 0x195821b99af2c217404ee582e29889072ba3cd994b74955c261b5ad364e5a9c7, 0x20a56fce37122b7400ab61a65eac815dd180f52fad2835f7fd9649063523881e, 0x235132912db2da07a4750c5ed5df2590e718404aefc48be6953432f64424042e, 0x1059db5e97f25826b0bbefd6bfaa6e9496c55ef5a88fefe9712691f6fbdf4298, 0xb050c882073a581e767223705cd9510c04c30168c50ffe0c9875a28b6938299, 0x115e60c4e2937eb53c6e4a5488f801266e84d07547a0b1cd91b18f49efef9920, 0x1d9bcbbd17b93b1913d2f79cdf12844441237206f0294746d93f8e5bdceb4725, 0x20007a0f5d37798789e0a8ef683536d9cf4831a6566eb727b41191d9f2974710, 0x16bae49f5ebb1ffe886b634d215de61ebf4f44d1cdc4f84670df8ed69310bfe2, 0x229aa5b547a63780d8d129e209fdb92f85662616d59da908075e668fd817822d, 0x29a5b1e4e2f25445496adec230ed53a35993b37630aecb5d76e56608d1b78cc6, 0xbfce7b120068b9a30029dbdb36be01d071e8163fa1724f13c6ca89be29b729e, 0x20055568b33367bc12bf4aed7a0909c173588a5763c6a1a7598ba7c6c7e3c2a5, 0x2df1ff86644fcc42a1932cf15d314eed407608246f14a8098725ff7be809c87e, 0x1d4fb0f18f31c8270b4636e6b5d7a33e455b1050de1164182cfcb739cce965da, 0x19d6f1d110d9f873db002ff2ed828905bd6cc5d7921c238d7569daa9b2401d32, 0x282a01e8f2ce09cbdd862f98fdaba3f9af02443edc962cb34802d04477de1e20, 0x304b679008e8a1f09448423a05889e0df663a2b65055ca9ee5a99dfe13fb9a16, 0x1998147edaf3a92ab179c61ac2c36af5caf3e78bcbfb684cfea15db17b835907, 0x28a4572cb654261cf9358435923e65aff8f40393752748b76acfd2e3f5755c9, 0x15bd998c2729dbeaccc29b5d6e4f0fd96ad0a6037c84a1a1a785169fb336fb6e, 0x7cdf3309e130f9ceddd688af3885369fbacf6d8a44de4d450667c0d7641213f, 0x152d47acb9b06c9d12c2138a31416bbbbb991a65dc4d4f8ef91a3dd728e63b6a, 0x1179184635a9780ee1312dcc3d15c7ef042b18ae9409670e28c4c7f0fb9b608e, 0x229da441a302929b0bae93741b7c75e11337c797e5721f9d7ee59235cda9a40c, 0x2e269dc78f70f9103b2bced3edbd41e156e64910887b4dddf8a3eee960f601b7, 0x21a91fed8bed14914c4fd491b6fa4dcbae7b3b8b3d456303af886c328abf4699, 0x29f07c1effc65b5589e1ca52cbe00bd65ef5e962d01200302670b6dce79eeb00, 0x506a7a5de6b56ebec5e708a70a3cecb3a2cfd25e7a20ed495e295a93023c5a8, 0xc02b148f4a1559b597cd320f00c02b96a7fc7c83811bd86a1e79cc3106b2201, 0x24a466f74e99a602894f421010f43a81c708b1b4ad076425190b85347f685b1a, 0x1fee18888425724970bd2897b54c7fa8e9c367dddbc8484da37864faff9f9056, 0x19711c41d76f64a371aba62f3f46710dee0c3aad217b7cb00bd12613b24ef52b, 0x2770d14a220152fa7083040be9b3cd38c8ace9e207073486bcfafcad706748b1, 0x8dffe684aa33f911d35e9a644b4bdbfcd15a4da49b6531816b60e8ce4f6b5e0, 0x1cbfab7cb05e2f28254b230bfce017f005fb4f2dd8935ad11765b347d2003667, 0x21d7269a53d3712b20543b0039aecc9466520133d299e8442000b33184a39e84, 0x21fde580a19886b13358f18a32d5aff685b4bd77d94f067f44f6e7a93350fd2a, 0x5232bf95807e48ad82a1eb4bc481e9b0720e95196dfe361f55c4d1cfc7926d7, 0x13602646b88ba31c0d544c757bd9181727835dbe690c30583a23f37f52fe5e3d, 0xe48466182ae8333af1891a6aa19736741ed0680d57c931ede13fc07ae82e88b, 0x1137b5c61b9684bec41e4dfaa76438256622a4378ea4e646a2844bbc85bf81cc, 0x1f4b85552b960d1c18b7b8f66af7305a6773d9b05faf51e0ed1a5f2ef2f95e7d, 0xba8a54914886fae16700c02efdf7767413a0bec5a19ed0cf0a7d8ac60c1f1c3, 0x30289c9678c0330f85cf8e362683a6144f22b841aa08f586f219dd9edaef78bc, 0x4890048fcdbde6366761cd58fcc6ac0a3360d9a64233d3ea4d8d6be8a23ec45, 0x1a4162e8a7704447be0c1d4d5cf2f777670f4841ea27ac2709cd6bffeed2cebd, 0x2e944b449c1369ce9766fa6f4f99a87630b5c1f2d63677a437a537d61b6c7470, 0x22d6e787f44daa6b6593dfde5576d2fdf5dc0447e65a1d5e7712e4e62c3bdcee, 0xe08ddb69d5efd949c3d671e4e78e4fc7628c65ec1cfbc18ba6a101aa19dbf66, 0x27a573036509a8a29a90eaa34d2adaed5ed1ec6b207274f3c5ca23dad3880e57, 0x72372083f62195bcc2b5afab1038198a3f0546b62d171ea21c37c8f31551176, 0x151e0bc2110e4300dd82a4c92442c4751c65b294426c8c320c69e61831958ceb, 0x13f1acc389c4f8e752cc7e4b81c37ae2130c60df9c8b7e87dc5fb7459caf4916, 0x6823a9baa55623732b02fa270b2f887fd3804a85c1a7f2a355df3fbefc69dc1, 0x1e41936e6bc0c3ed665c2e2466ab9216b9973fe136d9f9aad95878c1b5607c6e, 0x65766d2980331a55c0a39d83be78bd127baee77d53a24268e064c71daaf2b6a, 0x1c9d56f71c2f22c44d3a8c17bf5b40452e05471f0b6dfe9ffe4725eb29f73464, 0x113003c1dc7baf35e4536f95f4eab2f3badda2c7a1c6b5afc956234ade3e7129, 0xd5fb9b0e1503f2b92697c473b69cf76d38fc12912e2c3cb33996dbb0cdfaa38, 0x2e164a524ee22eb5a8903fae1f35a3a78f882f3e3a9892b6ff4753baac934949, 0x1f9dcbde7d058134a510a711d036d1f1800e473a63b33a7e0fb04dc2e09e3af, 0x285b20799970b58c63ac9f4af564ce0f28209b61802214da5bfafd0cf24c6712, 0xce3dd727fdd11a8bc731500effa23763089ce3332cb730f9fe57146ee204810, 0x1079746ca51d9518a0c309296ca48206292798910494277be2bb65a6b134b3a, 0x23a85d4f91eda69f310c451d7d480c2f40c0d53382ddd3fcaaae627b9617170e, 0x240657d67f92b5e4261ace434fd286206c315565378ce8b81661523f0e6ddc54, 0x2384a384bcc2c4a17ff7c9e3e7d131d39173c431333a9c7c1d6fd7110e25902b, 0x25547b51b2c6874e4538ca9b34093b714ad36a8f356e4c78e0d66b1f190038fb, 0xe59e1a990ec00f72edc37248349d7a5a6f7bcaef158110450f1e5985f0a5d99, 0x66c6090936f6b054f17dea91682954332b3e32d8f20a0ae171d417316d3622f, 0x1b25662843b0986ab1a4e9a766193efca47c70d49364f03d50c5edb5b5517ebe, 0x2647635477ee5fa9e7ac5983f92db34d7336646c63c63e2dd53d60b8714bd759, 0x26db2e85a9006ef5c11cd675a267d42efef9f5af90466b2aaf75eea8024b00bb, 0x2234546f5e8541e8f72ad794891950b32b1cd891cc66775c5b635961642e9c15, 0x1b61468fab59c925f1986186bcb97965a858523a2582d434319a9525ae71158f, 0x11291ef514a10d6f0651e4ad0da5d4a489e3018927879da942defdbdf701ddd, 0x2df2fb2c2e321e3cce13d16091705a40c5c795f8b41b61dfd6ae7d97d63578b4, 0x1baaf8ff96bb2224bc34cf80c38bf13086f1e429bceec12090d8a7c376a9a82, 0x7b0d70ccff1b70dad9bb4b0142e3f6dc5bc95d3766affad378cc5042484dec9, 0x11f28ee5da80d19e31581b566a439537466d9ca7fdf14b7086830bd8ac13c4cb, 0x13d7b03e8fc9fa647fca6cdca97146901df7c675a164913c2bd2a3b6ee3cb4, 0x2440e786179a7fbcfe8d29ab18d0fc6cfa383cfb747f7a2d15b77d82d9b0d9d3, 0x56149221712b88ec291fc218324142d02873cdd53199679fce4dfcb5dda9116, 0x162c5bbc81b44427be4e82c5e5253bd66c3054f5c5b73b28b29238487849a794, 0x178f2aa8df9a11ef33558dcc934971f7697e626cfef00ffcdeb6f3c9c1a7d10a, 0x24afd92f80e57788f40fbb2b79f29454dc485fbafb5a7263f462b7c84b4e500b, 0x492ae5f5ac2a5102ea96e60ac8375553687151ae44042dbf5899232c8f2100a, 0x10dcb11f815c7e29c66be1dd3c5f7602c98e9fb1687c2d825b48789c521fbd0b, 0xa11d587cb75d48544eec662ad27ca6acfec98f7a8b7963a294e4bb329b170df, 0x1dd6b095cb68459dcf6bdadd434aa81f80a55a08e6782c653a93afd8a65f3267, 0x14c09d155c5d428198c234b553da338f227cbc12b0e42f2b9ce71563ee1495c0, 0x117fd528770fb17f718e29a2d91a63ec7c39ef1dd3039f0943f717d1804253d5, 0x120e7416d74308e24047f6828c68ae28bc288b216e8a25e8b0ebcf738480e390, 0x6995e510fd7669374c39d27903f342ac5bf8a1464807f308bef610b76cb693e, 0x1d814b3c17656c2327f94cc02472780b886b88394f1a5cbe34dc4f44ff134fce, 0x3b90da34b198cbca17e34aac98b169875ecf73aeb5c6ff1f00c9fe535aa9902, 0x27fa77a0658791e6755781c367683f9c9333a41364f7870edff1935a347485d8, 0x6d6ee531ba3fdced05e24cf9103d0962dd227f1de692c0199483e92ab24ba59, 0x1e507921be7c76124879ffce5b62dd0e96259e98cc64c27208d62b40bfe3e482, 0x681adaea79cf457db5701931f0ee2f15ecbb159ed50cf746a15b85c6f8a5370, 0x1e6196147508bf2edc872c4e897a967778b119f69fb431a7f646d2018eab4010, 0x68efa35bc620124ab7d88990171bae4102ad21dfddfb387df0de0c8a3a189e9, 0x1b012224a4f050df841122d17c5ea4eded7c8ec2034743a432a2cee893976f29, 0x208d814151bcdcddfcf835a958c259a6477bfe4b3392710edf9d80787a25c5d0, 0x28f901fcaa860b0dc4192adef8ea4ae55af6ce432c85e0ce4d073e514ab24252, 0x1bd639879731823c871f9cd4714e3cc56a6eb19884b73664eed24b11929119a0, 0x1d3ee85f078fbeecda2473efc2bedd1ba7ec6f4795faaeae3b0de48d3080c625]).* from "../poseidon"
}
