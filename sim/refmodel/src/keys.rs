//! Generated by tools/gen_keys.py.
pub struct Key {
    pub kind: &'static str,
    pub bits: usize,
    pub n: &'static str,
    pub e: &'static str,
    pub d: &'static str,
    pub p: &'static str,
    pub q: &'static str,
}
pub static KEYS: &[Key] = &[
    Key { kind: "fast", bits: 521, n: "11862478c6181bb25c05c11b6ca8a43f6d2aad32daf95142c5b49a1181ecf0c5a764b410020a6998a2889431e0835d7316bdbfddae2dfe01ed41e82c4afdf570d53", e: "10001", d: "330a06b41", p: "40b1", q: "4558c859023650929aa358ac75ad1e3626e71d9d84437a6c82b8e0f7da3c349530f7640f4dd6617ceca3db9c2633ce853297159eed2fff49ad446f6d027cf43" },
    Key { kind: "fast", bits: 521, n: "189dccf13a46b40e5c8f0c8af7da4e9c4fb0517b797f7474e46839143268ea46d5bc3bb1bd3db97a9d3c93a58e122f53ad6dfa2de55652fc33782c0bd106aaceb89", e: "1d", d: "120dfb9b75", p: "683dd", q: "3c74319140f6a89cfb7520cc463a17e5f2692afd00b30309293fe0d7ecfb185d92cf51424ae281a1b22bad7a69b9ec9ba79eef0e46a71cf285521b7787f19d" },
    Key { kind: "fast", bits: 522, n: "2b57bac1c68cc9b5d5b5fe15d0996621de8d18af8d11902a56490d87a3ca8915d4022941759871969efb84a0555e0f3cc8b0cf9e532e3e35665879ec7f5745db5cb", e: "1f", d: "10e3ca579f", p: "ab11", q: "40dcb3ccda7e2be96c1aab231b59333698972665cd8f96a6ac7d27406c8eb60e9445564ef00fb8f487d9d1d52eb99295c839a8dabd9cabdf0b47738af72fb1b" },
    Key { kind: "fast", bits: 522, n: "2dbb68f3eeafb8f3255ef92df11a98f20bda26b76735a1b77977c8a29ba55fcde733f71aeb09f9c1188ad82a43697fea24d883e971ad9d895e6d6b734f4eb12f4d1", e: "10003", d: "3247a138b", p: "3059", q: "f226884d93d1c572ad591bbc437b6593e7a34fae68671f4886afc8202d1e56b40de60b5a830ce1791cfebde155b90dc1ecf0c1219aa48c6d9714c68c2db9939" },
    Key { kind: "fast", bits: 525, n: "1ad23fc4c7355516439572cccb53ac5a8f2be7bb4797a30c5ca25d1883aea5119b49ca205d93de141898169b154e510b4a26413a850511e28d64ea877e33a5eea94b", e: "10001", d: "330a06b41", p: "3332ccb", q: "861c4b5beaace27d1824d4a736a869245cdf64db6d55c556da1886864d417f667c159472c8ec68ce519008355bf6eb2a03f795b5ffc98f5fc318c0b4b6581" },
    Key { kind: "fast", bits: 525, n: "14228f0b11d3c6921d23874a3356d20fc5834f50b2405f56d7b9e8aa004bd62312674088b2bc7a21aa483728b46b31c4ed5e965045add6244efe961e32a22b5ade4f", e: "1d", d: "120dfb9b75", p: "22471", q: "96607f1c7fd6e1c448367600862a00355f9a0c2adee0f8956016042931c7330b08ae57a1dd1e6106742a1fbe41454758eb499812cb02b27d447e3378bbb8ebf" },
    Key { kind: "fast", bits: 527, n: "71f1d13c51806223e128467b6e905dcc91f04c93720f047899af48c651839bbc11feb8f7034746859e9ba4e26bd5a458492b8834ed148fb9efd1a05da041917141bb", e: "1f", d: "10e3ca579f", p: "4f49e69", q: "16fe4d4b92000e611b5249ca1f6796683a54b429e5021e54cc185603e2e4f12297c56c63c37b7fd296db162a93461d34ff4a2449b70e67857a8b5b12a06283" },
    Key { kind: "fast", bits: 527, n: "62806c849be6fdd4b3e2720fffd0c7fb6cc492e89b59a6596d634957b91be2457ba3e090d15993fe414b25443d6e19ea4bb02fcf0fc3219096efd57cfeb8ab9ad7c3", e: "10003", d: "3247a138b", p: "598cb1", q: "119977e7dabc6ef84ce19a2a4e6a2ea35ca8bd5fcd53a312edfa2bd0afe3ff8ccc56b62c80d5ec63d4fad1b5adfd751aebfb3da572b847e9d73e2135c52f8b3" },
    Key { kind: "fast", bits: 528, n: "a500f9c19d0431f0d96c8b3d38e5722f7a3b162316ae7c28684262477fcfeee97a38387f2690ffe716d4f132f1a458c6a1e27c53309d6dfa83a818ee4913c92d81f5", e: "10001", d: "330a06b41", p: "57abd", q: "1e1cfc69c55f95cc01ca8a2c0b63e30c34fe2ad128f314f161e187434fd0e43063c9afc42dc858314c0a3082f1ef26eea21785787329575d4f34560e6139b399" },
    Key { kind: "fast", bits: 528, n: "b9f9bfa104dacbb0677beb8133ca1bc383a3a7bda59a65cd5105764d71c41114512968041bdadf9e2c3b7078e654cbcf770bbfa51ddcd7038238733e7a96c6f7c39f", e: "1d", d: "120dfb9b75", p: "2a15805", q: "46b4d99c9935a95e01d95f001d3fecaef11e90bf10c624a7b121965d9cf75baac8b75fe167a7b07af4068673d927e5b2ad82537a6fe3774d9eb34e8d7e7253" },
    Key { kind: "fast", bits: 529, n: "1541c83e48707181af93f8d258252387b354cd05cf1205cf80e0518e9e7bdc29007f3d7a9822a01d9f03f881109f679a174e4c851862733a82305a3ebe1d76fbf756b", e: "1f", d: "10e3ca579f", p: "189d", q: "dd175f0a9f334b30c714102f228a32ef997c7c8f231033fbf9065c554218ca353e55760cc3492d343fb449fcb19a7e70833dfac346abd3bc52157637e8d1ed3a7" },
    Key { kind: "fast", bits: 529, n: "1963fe3bf6bb02f140db6f6f894f61d8b6c45b4fe7b331bda8f983937ec0e4557f2396e6acbe4a98e463c26e1ce0567c91e81e6f334f8631ede562c299119dff62911", e: "10003", d: "3247a138b", p: "c919", q: "205293f531662113225f9f5407c634d7f2da9b56452067e5e8777b6cd24f6a72c18184c7969c204989d14238dcc009d94abed09efbe7b44e19d0b410930a846b9" },
    Key { kind: "fast", bits: 530, n: "2256f8d357c77d989cd04ab48e11218a997d1f858a839f729fcd304cb0e0a55e0665f5cb64369cf9a715d4a0f9092495d245e9be1f04516bb12f32801b345bd76b317", e: "10001", d: "330a06b41", p: "8af1", q: "3f4565186ee45a336149a7a2c455e396e6d3267b050387a6cf55571d172c3554fedaf7f11e18a2d7d6fd1aa1364c1bb54f00ffa2416cf0e7b40c6d152d0584e87" },
    Key { kind: "fast", bits: 530, n: "2f0d42f56d36c0fd64b5a24820ec2fe2c9bc3bc6e950f0d5fc2dfcd9df1dfcf00245d5932492c65cdf78d6bfe25a4e279cc63c3a20258945e3841c958833b345180ef", e: "1d", d: "120dfb9b75", p: "83659", q: "5babc2b1d41b710e5eac5be67000bcc339b7022b36cf2992abd4685860d718a0d4f10f07123bce30a0d704c76d67808c11fcc61ed41c5b6754af0d74c6789887" },
    Key { kind: "fast", bits: 535, n: "55a716ed21de725ca2cf746fa76984ba45506d65796c5573970d4602283c896580991188c1404714d098d534f4e37206eb0d29611679dc74726bc9e9bc00ec56a3a107", e: "1f", d: "10e3ca579f", p: "1406371", q: "44706766063801910c056cd356eae537f465c5ba7806e30bcc3745fe273e8a4f8708987bfe64ef01779ff071199d4b1d26e5cd12ad62da278f100075fe891ff7" },
    Key { kind: "fast", bits: 535, n: "4c9ce42c432b6c8e4e94f049fdd8d3cc6266250c0370d7bcd4d450d625522bcf9911db6acda777307be810d9359adaae19213de5c8be573da4b88099b2e39762440c97", e: "10003", d: "3247a138b", p: "36c91", q: "165feae9d9a23cafe8502d42bbec3da8c1683611f097d66cd2c2520d58c53a7a0093269887f75d8a153e8c659b7c6e3b8481843fac08bcdee129c7df1ed5a99aa7" },
    Key { kind: "fast", bits: 536, n: "e3974ca79636bfc1afec01c6119469452ae9c464b8187f973f9272333a84e1e4fd07e234f3aa873865581c7bf6d3784bea4f1e53c99f36dbdd309ee5d76c0b37fd1e69", e: "10001", d: "330a06b41", p: "2c359f", q: "525e467c16cf4b1062cc540c0df992cb311e7cd4744e8899936a2c34fb87b333f2f3f2d47c9c6ca235fd900299db9fefdb0f3e2826e2b08ded4a410a5ca3b5ef7" },
    Key { kind: "fast", bits: 536, n: "84de5623482c57db53fa8b962c0a03a04865a84fd2758f5e31fb4e642cdd94e6d4866aefb939c8edd601f4dc181fe7fcdf4e6ea152d92fa37988a85ad319aee766107b", e: "1d", d: "120dfb9b75", p: "9f7", q: "d556f1ab8de03cc8d4b6b6fb5be2b83fe08652fd9b6189f949ee3a3b1690703cbde862a52362b3eb43c01b121d4d6c0f7331f794237b6e829e6938de19a6942ac9d" },
    Key { kind: "fast", bits: 537, n: "1cd4d55ffe74bf8edd813e892ffbaa3691946a601e588295043677e30c67a04f2f53ad0d733c0e2912b970a371e6bb8af6e7de798d3e47077aa99b01d7cb038bf6633e7", e: "1f", d: "10e3ca579f", p: "3d19", q: "78cdca9c26a3912479771cf91beef2e62e9684efc9253656e9dcdfc1e067b5389a6f9bebf4376c0ec66d60584884d43bc1581473a376d39eb0f4c5ae52f73c718ff" },
    Key { kind: "fast", bits: 537, n: "14376411cf5083246390aa6360aaabc39708a70cf3d68450168ce5e27325b29abd08996de1dc8c2619072f3e2293f734796dc928f2444a3d3424294a326b882d2354253", e: "10003", d: "3247a138b", p: "32191", q: "674e38304d3d2fd161f0b716ccc8f2631fc460b4674d95e977b65a15c9ac3e5b905b07c4c87e4e40512f4a7f8267bd0cf26d113063abaf53b85bc6ae61249733a3" },
    Key { kind: "fast", bits: 544, n: "d9d421736951f457b4ddd45be35c2b985b06cc8086b155d687b4f09749ddcf0fb744c1b51d5f4cae52d130a19ec5cd14cca26229316692f353c5288cee1c1506a3f62909", e: "10001", d: "330a06b41", p: "3155cf", q: "46a4fbc270134539074ade21b3c065dc1b651a70577405e3fae41c5be6c6276bf959d999b0e069d7bbe1f608e0d3c5036523a4accea785084383c782a81ba30a1a7" },
    Key { kind: "fast", bits: 544, n: "e9b11bd10c50bb8a54e2f05659d3e00d42afbd3207f57a33f47ce23d094fd3ef3559439a7ec5b079fd9df7c2c95f49688ce00a103c9d1ee0eae45733e53cd7ba56b36f7d", e: "1d", d: "120dfb9b75", p: "4188b5", q: "390e2eb9f3f7fa0db226d276b42daabc67d32c3c574c06051cc8774d95b7857f1d37dc205ee0bf37ad96cb6473da22a11e6df6eca7512d5115e98d52da28abd70a9" },
    Key { kind: "fast", bits: 552, n: "acab5cf4f259d53e8fee7f2adf9aa4d5575b6b7d321e84d3129fdd7d46cb5638c80175b0a1e648450789a0a4024778e1d49e54c33e588c72bc0585b082a2f135e5617c8163", e: "1f", d: "10e3ca579f", p: "1badd1", q: "63d00706e14982256c9768108ca24a1a31dffc87a40c682c3b095875c388ca15e101a657fe931ee69b86ebfc70b61789ebc6c24874cb67fe679da367706f7181b44f3" },
    Key { kind: "fast", bits: 552, n: "969f03180298c42ed0fbe473fcb028e3aa2b77c6bf90d17beafbc66d13ed18ab5c3f64292d7a3b179d05f7ef42de6f79a4b771878a790ece7d75cc2bada827afb6ef21e4b3", e: "10003", d: "3247a138b", p: "136c9", q: "7c11d5f547db20514b46d83856426bf6d48992cb8dd3c9a8f23cc37b890706bb84f7bbfed21686f0db9794945145e1f228f23452f58af5050bf8e55dcda19cbbff719b" },
    Key { kind: "fast", bits: 560, n: "ad102ebe090098dadb0748691e9a179a6ccabc4ab4f6fa27ab83992aa7628dcf2e5293573764d4e389080e5219f2cf04fe639ffdcaf7626e1a83905e44617e32958fea4af1f9", e: "10001", d: "330a06b41", p: "4b174e5", q: "24e0199fa52403cbf9028e48563b52d4441b4879624b000d5590ec97f06af0b6fb8a88533df8634f5e0d18c7c2aaee66542581c0c9c2b81b2d4c406fa9ea638aefeb85" },
    Key { kind: "fast", bits: 560, n: "bf4b7a10ecf4db251a804ff416032049e96ab9ad5a38106a74f461b91396ac76d24ea555cc288faf2d52a11071a8f2ee3ea0ed58627521ad070daca93eb60de00f32c2a27887", e: "1d", d: "120dfb9b75", p: "d2c829", q: "e8551db218754d835d34f9771c0b24aee510c559957c425026a9dc6fbbb970ca5e0aaf73d396cdfee433d692e70adf9d050d34afacd41519160912571e2062701d112f" },
    Key { kind: "fast", bits: 568, n: "eaffdeadea32205c417cb59410463b3c16a34d5c150bc6d1ba6498ad10c8a2d78b9a57fdcc0369fb941d2ef2e814821a07446e7e5d3d477a086587e1330fa01d8674827bfccc45", e: "1f", d: "10e3ca579f", p: "959", q: "1923d2ed7bcb980e2607907bac9602458bace8ee5b78c14a88f989c0ff1efc21c1b2280254f147feabd1e96c09d9c1890af0bf8b6ea43dfddd2ad92763b5ee40fe041ea5d0cd" },
    Key { kind: "fast", bits: 568, n: "f3d6d5146d0b7c37a5bc55140ebaf69d7fb5e3dcc0d4a16a95591c420ffc3be5a4d535e9becef92645940c7eb009357bcfc9fa717712ab0fd9f9cbfb50d5b90ee621c575204379", e: "10003", d: "3247a138b", p: "63baf3ed1", q: "271eaa0def08f7c919593d6ede01cc03bf859e1b471231d5cd532f86f30c9da680cebf11ccbb6baece6750c25c029e0d29f37e5415b37e8c76bbd5a6bc3af16730f429" },
    Key { kind: "fast", bits: 575, n: "51def4e57842bd657d2f2e41bb778465d96bf6f316cdf13ed72b27045cd0d8c26b940e93950cfa7f4ecd0072d988f02492784be3d93c1367a69893040e03dd0ffa99fe425c52b00b", e: "10001", d: "330a06b41", p: "1069", q: "4fd31b80f9db0fcdc6c6b635f943b7fe63fbd25e8a61cf5dfe56122d14f74220768a24072622b6b0691b3dae132b2501b735f9ad57acb5fd5806e5c04ff717859dbeca336ae53" },
    Key { kind: "fast", bits: 575, n: "4ed5ef0459420af88550ef55cf5018da3680026035ad4f1eaeb81cc443b062afc6ffda2327519ce9915fa54ee61aaad0a3dd1ace80800ce60c2c0c32c231a966d86481f6f0e2c4f7", e: "1d", d: "120dfb9b75", p: "ae131e3", q: "73f038ab0a1fcff7d922fccb6127370f2cf97b358c7c546f167693de6dc8bf9541f507b43afe0ad0d25a88828689fd8c654ed9643d7ff7c26691f29b18d8808068c48bcdd" },
    Key { kind: "fast", bits: 576, n: "9e020598f3a41eab5293219790b1b406f7090bdf01e223065c8ecb8e7e3effcbfe14abbf19f4b1ee85ea4b52119751f8edd365a0589c672b5c5f04c24c73a421c39a99d41389ae33", e: "1f", d: "10e3ca579f", p: "52ccf", q: "1e8860eeb57c65e9bf87976306e3375b7ed99d5f46bcb3847c9a4de15b75f4495ee390f6e3d52aa5b61fb73c8052ab87646af68d56af6e774e7b77abcd0edb17b4de9e20e95d" },
    Key { kind: "fast", bits: 576, n: "ea39f1cfd21e850d239860fd5e8db6893dcc3886d22cd2d36f4ef84ff5d5b8684c81f42ac502c3ea144a8b6a5a35581d967b8842ca577e7bea6ed717a52b256a9cec0590808c8591", e: "10003", d: "3247a138b", p: "a349", q: "16f38e638cf2fce6687a14cf289414b419ec2ab36f75d1cb36fbb113a2f7f7dba070180600f1b6af2c78e5ad007ad013a7bc4b1be33fde8916de162aa6bb2283a554313888809" },
    Key { kind: "fast", bits: 577, n: "1600e958ff8e1229bec715aadc450409e652daeec9dc1f17ef48f8bb661e0f6a7bb7675b64d4caa360280e1c327c6121c749b884ab408cfa1563a1b050fafb624ba277dbb0118c715", e: "10001", d: "330a06b41", p: "8f65", q: "27485928db2f9c6d41a6d130ec401a66e83b7e23d81c640f245c6be4d8500e0548bd3c53697bd66e97513242e55064fe1758a21a577804b36e460ad6e57fe33a71d0accec95f1" },
    Key { kind: "fast", bits: 577, n: "10d0d5e34c6239a0d569b578fab39240900904c39ce01c8cd6af53e94fa5ac09a73750ec0cf51c7905eeefa0c19c7b05f1f8a059e55f0a295fd05cdd84a895b9d0f49d86bd7bf810b", e: "1d", d: "120dfb9b75", p: "1e11d1", q: "8f29932fa29e2dc15733d3f3fb63bf14d25e4ab8eb73417ad5ed8caaf2ccac91e35651d6902dca709b281c1ad459640b48eb45f06906c3fe98b65608101907dca9ac5a1a01b" },
    Key { kind: "fast", bits: 592, n: "bde5b177c4390d5d7d8aad2cc19007b6b9d5a6d48ca60bb9c2646a5681559b1632938b4a049676e02945417cac29985d59484756f8cfc60dcb3dc83aae297504b5f2e9bc480ab46327b5", e: "1f", d: "10e3ca579f", p: "3e19a9", q: "30ed3843ab67dd0f3b8fab3ee2b71c9ff8232a0c3d435dc61c7aacdd12132cf5024b5e44cfd564b2ccf8e0ed88926360fdf25332f22c3255c278cbb5cd02494ce92becf635c9d2d" },
    Key { kind: "fast", bits: 592, n: "ddf1efef7e71fb496de8d9e1890a285214ccf7d49c1bd02fa21c5e4640f0cafa2f472d8f0abe245a6fd65ce5c1c05382e444867a7f45db0c9f0cebdfbcf90538cef17d403f20dda00cf1", e: "10003", d: "3247a138b", p: "a80931", q: "1522136ee06f4146183ee8c8f23349b056d9e9745ff8846d56c4421c316471d46ec774c592db484f72d40b3c014b69a192d8ad3a0bd20abbbee9630a685ccdd9383933e4f0b4fc1" },
    Key { kind: "fast", bits: 600, n: "98f1ef373e9728eb219075b6ef28af941e474fc8b440e579ec0e8ab72be2ec6b1dc4611110803ea6fa6a372b479e4cdc21cbeada547afac4c7f4de792cdf778823dac06fb2d6c7fd0ac79d", e: "10001", d: "330a06b41", p: "17e9", q: "6658b47c76562dde0b2b025c37d09cf92da5f43a8595f35a7ec32cda6e969899a71862bf57b43678dac31fc5f821fe7bf8004780be5dc106d6862a393f71c76482e49b5f5d48958d595" },
    Key { kind: "fast", bits: 600, n: "843a78e464933b643d5248682e8ffa982611c536714e585281b117ad867550bdd9345c9b2800065d70b9feb272e115dfcb0c6a7b532b2fb7b3fcdb1a56095a087a5b624fe33b0321dbdb19", e: "1d", d: "120dfb9b75", p: "3d75", q: "226cc8c33b00fce57daf024522e2da2923fe92cac2c8e9be3b70e6522d845222f1c025a5bbd282e2b64480775ac7ac86dea3c471024e3fdfa3d5b8b9953c58549b317397c492406fe95" },
    Key { kind: "fast", bits: 601, n: "14cb8710b5b09bcc4a03222bbcc95209b79f27e8feaee9b7115ff05fc582fb8a09ee300b51219e643a49ba0aadc51918d5ef92b9e291c761679bf833308fccd1bda4723f4a99faecf0727cb", e: "1f", d: "10e3ca579f", p: "1777", q: "e2df5bb305448fe31b31ff38c1b52a8ff1a50d360658a1905123db56f5db3e9b1f6aac0ee10050a41667a56ce061e52fdb2928032d8c4fab1723c39eafd4398596c1522d8a605a8ef4d" },
    Key { kind: "fast", bits: 601, n: "1a40e0896205bba953d0bbe893a097ecdce61242e261ba35ed173eaca3e94b57c19d9ce45234478762ced1be88fd4dde689f28814369f193071d5d6a723566e6a456f9474f5b0901a853a25", e: "10003", d: "3247a138b", p: "11989", q: "17df4ba6a034d6717bf9f9be5655fe1794c0a6dde9cace82a6e00f4692ce8eda0480a407c78da760663c39dcfd0476df03e4bcab8b08b0abb66889feb8d77184e96aa515d4e209260bd" },
    Key { kind: "fast", bits: 607, n: "525a3b9b202860532757999c41b21ff93fa9884c82cbed78344d2a721a19e08cb56bd765d34f67917149d1eef5a3a0359b6b1b4fed4523fb1b9439d41c7bf4a7afcc6c5669dc02aff08723d7", e: "10001", d: "330a06b41", p: "4dab9", q: "10f6ecdd5ccae3153da0c94220578cb7f9238dba8e6ca02605f0ed501965b983d7d62151fbaf4f2000a6d2868f2104d0003a51dd1e311f6df16455cfc9db88a89748c7ad29fda9eb6b0f" },
    Key { kind: "fast", bits: 607, n: "6eec35f7dc23a3a6cbb0edbee62cf8c3d10bd2fc0b6d0dcc8abb11a8e04da8291765814b1b1a65fce45fda979d58c0ed090fcabe6923838fce775a393e44c2259ce79594d3bdaff573e780a9", e: "1d", d: "120dfb9b75", p: "1b1", q: "419485990b50c8cf66196166d036f79578a312e8f7f987457e5cdceaa48a24c033abc0e99898c5762e563b78f91c3bab79d4205da7fd5904063018f6af293e2a56da81d25fa0096f6af479" },
    Key { kind: "fast", bits: 608, n: "db261cbc6e445fe22c693609a8eabc2b4f74e18e6a2cc955e5fa57560c1b78919a40470eb494784bfe5ea95e3b4b696c3279c80aea291a8b6a6adb43f96323c6084a15bdcd207401c9b47d11", e: "1f", d: "10e3ca579f", p: "1357", q: "b54db464aada68a953f32500640916876b0c7762bdb39b8d8a668ee29e353be1ae685df26a7a8521c25c7b5dd51ecbc39016280e68452a7cf505846f0b6ff50ec3616f1c5374c448d59d7" },
    Key { kind: "fast", bits: 608, n: "ea6999c240195557f35d1e81afe0ea301d232dc82f4313184068b0d23463c80df927bfa5d50293158fb891cc51d73f387a650fa355505bfb1368ac4554957cef05d59fe0206aea62304bbfd5", e: "10003", d: "3247a138b", p: "bf1bf", q: "13a01c94cdc2da5025a5cfea30c0266c50ec0d89c353afe9e470d26a1e957a0e903a76bfb4a15aeb3587e1f8b0f8d0d1699c9ec1da8a5e304d7e1a8fd40eedcf901e3d3dec00fdb58b6b" },
    Key { kind: "fast", bits: 609, n: "1c684a1c35680c7edcfda99a0ace4ac5327d050e81e1cf7d85e38d6df07f984a29ed280926a2c3bd91543ef392a984af9b3767c3431e463d392802c435f9439b038bb93bcd7f1ea766ef0d6e1", e: "10001", d: "330a06b41", p: "b29", q: "28ba135555702a4975755895e113af06d2e9899fc67beb8e6a1c91c66319ac5dc82915777adcfc500634dc5b8046fe34a92008430aa73ca58cfe2240a3669e08cd14a9265631d003719cf9" },
    Key { kind: "fast", bits: 609, n: "1c4de9e11bb3870485edd7ff88a50e4a68bb3dce9f2b307adc0b1c510715d22ba90864038235dfd940ddcd67f6eb408e25258212869b262a934cae836b8ba1d8a6906278590f04a49ac4d374d", e: "1d", d: "120dfb9b75", p: "2d2ae5", q: "a06c47be735c5ed467d71013ffe498edf9acf5205e59a16d375190c8e15be66a19ac320cdfb9c2cd823c4fb5af441fd812459003d35b5053b46794b81e2d68af893808b4e1400f04c49" },
    Key { kind: "fast", bits: 640, n: "9f644101cf8c5ba89cb609e3038ef7d53b25b59ed474be0c8196fe3a922af0d19920a7f94f461f0e69038f5835e5f50d18da3f6761c8ed4b5e30d4a8b127e5b5877ddf7054c8990fbef0b8fb5496795d", e: "1f", d: "10e3ca579f", p: "19bed91", q: "630e881093b426c0e69292beaf979bbafa4b6bc6482841f7ac7e7423c4fef1cf0054272a98639b6c71ba251f66074c4e0f2d758ca64d6ca465d052ec0607ddbfb582f5084a524780476ed4590d" },
    Key { kind: "fast", bits: 640, n: "eb095e04559eb0ecb6a35bcfc9c438c19df64c5c1c66c465bf5568c42149b06f167d3173820e9492eb342bf6e972d7d1139840bd23dd5f7ff5fda810d1505d40ff57e3f1c4d3c5642eaf0718f223fbb7", e: "10003", d: "3247a138b", p: "d63eeb", q: "118d7bcf70fef4bc6371df8c569fa6b73b29b5117cccbbf7808f8e13396ceb956a6b88cd024595f2d4072de7be9843c53d4d4a3baf6c55c51dc9cce717f2f1a6e7b99c34829f941308d42173b65" },
    Key { kind: "fast", bits: 648, n: "8ac2c7488e81cc69a3dc4a7b1be137ca9076270045b84125f551de6c418c412e10a08df69707142c2b3dea49e98f6bd7da134864fc643b6076948f40b94866f0d0db8ed6a20dadc8044d51cb256e360bbf", e: "10001", d: "330a06b41", p: "1a64d", q: "541e03cb79832f4a430c35449a3bf3b892c5c441a9d6da19b21a444290179b58c6530cbab2e13a7f229454bb1a41d58f8a40ba31208656bb12638168d390d830674f280e4eb5fe348220ddf8f3983b" },
    Key { kind: "fast", bits: 648, n: "c842bdb6df114d5d3460f6e868122cadeb20ba650c562d8bbecf0aceeecb3de6a069f5cd888732685e34f2972fa68063a61687e580faf18e734e3058e30f0e88096690c7bab95c61022206156441e8a083", e: "1d", d: "120dfb9b75", p: "3302cb", q: "3ed03e59686b423d83d91a05dbf9d4dd5b363bb8f0c80bcddca58499d5b4f0e7291e1bb87e0ae27915dd78f05b5ad734c55a74ea6c04c5cba982d5bf6f6fc71face19793a23d7bb167b7ea67bca29" },
    Key { kind: "fast", bits: 656, n: "95486a3bcd6b2eeb6dee79d772a21169d087580dc7898c7310f169898c58ff32bb5970ca35246557b5f0ff718a09fa5d4112a076db251b9e84a56973c2c1079fef54824c1b884998a362361867683853879d", e: "1f", d: "10e3ca579f", p: "9abba91", q: "f6fb9e76dd8353a9300e0dc2af4f2c5a166ee6687e9f0a3b52f9599e66e330e80de3d0f6881937f7260ae546a1eb9f7cd14328a92085413b9f16e20e4543f6a08ef08554c6bd335b191ec6616ca4d" },
    Key { kind: "fast", bits: 656, n: "e39e3bebdd983023144fa320451d55a1d32a5136e46bb99d9f0a9a002d8882217e4d43b076b2440c415ca11db1a67f9c81b54bf49cd84db3764fc04f41766f108c0aaa5f02ca2ac799f1ebf4afc0cb1bbf91", e: "10003", d: "3247a138b", p: "25fe13c9", q: "5fdbaf83aae01fa601a736269d120a397766f894151fe526521e98cd2fbaa15106dfbb9e43ce4077670784eec4b4e077026da84ddd1d1e9216edeefa542e1e5ca881ccd4e32db607a393995846189" },
    Key { kind: "fast", bits: 700, n: "a1c8d938484d55e080b8a92071c98ad3f4cc51512b58662d7f5df1d9f8717ffe94b3064dcc617ca0a7ac9fd014c2b1a62d826948cf8a5075551dafc0b68be573ec3f65063b6fd8a2afc58d6dacba62516e361bb344cfe5b", e: "10001", d: "330a06b41", p: "949", q: "116c8b473824c2ebea1b6d385fd43999ae73459b8907b08995bda6cf3592f479c31e288708557522db747d575a39cd20de05a5067108c1e83c002e7fcebb99a09210f38272bf0a83e5b2689f24cdbefbf42d079d44e83" },
    Key { kind: "fast", bits: 700, n: "d02baf818b245e877e9802ac6575f84e27532990b0d0fcc7d2ea634ae57ef2f38584d7c5382191f0cb9a89c8eb11b5c6585d9105ed66136c232a38a8baa60ed5bcfc2fd4013e07731b35d218dd29eb95369f870c71a4391", e: "1d", d: "120dfb9b75", p: "943f", q: "1677b30c2aba6463ea12d92174146c18b48bb444a2df19c3b761c3b68432db1a770f926d7a0fabb3899623bddb9f3cd738514706bb1fb49a7cd9cc02517631e2bc902f93f6c571f26d0b4afcb6b6c14bb010ad8df42f" },
    Key { kind: "fast", bits: 768, n: "a91926c422c67f8dbcfa15dad0265923800461377e4dd0772621096eb94767232c20c6b5cb8c9126ba39a199648a65358b823edc0c1267b1a37f8f58154c16d17e8b18e6e9a289b09345783bdf6abb76825b575e418a366d0d865959705f0c89", e: "1f", d: "10e3ca579f", p: "d63eeb", q: "ca0dbf59ed44c44ca55824c1cabc3c58a1ae7d0e6482b4176377005dc80cff38bd215c21539ff733750ad32f065491d808bdfc32ebefdfb888e5b11ab9b7b808b408fa91ed3135e01fbe41d07d04ddee67f206618ad62ff9cc8b5e4d5b" },
    Key { kind: "fast", bits: 768, n: "c5718c08a685e2c1f50b243827b8cbddc5cc9220243fc5d7b3601e4bd44d63806532dd05a0cf135845e3b8141e86d0f763336ce96dcd0c1eeeaa44f62b9fea717b168417417791f445ff90f1070ae018f7eb584754d4d051e129c3f0e06f1cab", e: "10003", d: "3247a138b", p: "a681975", q: "12f90c667f689c2fa74dd713f27f09f56785cb81d6592112e7d2d1c12711ff9ad4af80d582818376e4eb7017b1c6b0d8d290e3fd979fbe947f9f2110eefa3800ed7df8e9a5464ef2af1ba1f141def5d5b93e6bf747b86382c6b7e3799f" },
    Key { kind: "fast", bits: 1000, n: "d198e2b289e506310d2a2b0d80e0e850d25c8d3fa24952599d0e39cdb705c3ab864e8203feac8fa3dfe1f1c4891b0d25533dbcc2c2ed1b0cd501d78fd4e2c5b99fb20eb92c428e255f7a10b7d080d8324dc272c7dff00fc5f94eba7770237edb80b2b0f177c409a4c90ff8cee0c08df3d62c7e795346360f4d4fa5d09d", e: "10001", d: "330a06b41", p: "1357", q: "ad66bffeca7ff14458dd71a4b052a77b11d3e2a12023d7218c5389bd44f195ef5eedc108bbf15da74558521ffbf36d1112dd9ac4643fff36d3479627e1b575185a569ac9b2234f48a5713d73ed985ac0b4277612684aec1cba311a7f752085141dbd74dca85ec204e3c49e10577d549ac736f595db4eec8e570572b" },
    Key { kind: "fast", bits: 1000, n: "96242e41fe164ed92e2580be3cb66f30a15a4b3210c31d5ea735fc5d366decdc9403ce62a8446d275de643e11a7df197d452f97bcd896f4f75c0d1bf5f46919482f345717ba62dff487b1fb9d688d3859fb46c7f2de57cb31bd7335b1bf9e63bf9fc63069475d94fc9b16fe1472e7b1878489f57030c59d9d4220a84bb", e: "1d", d: "120dfb9b75", p: "3f00d", q: "262113f4d1f1b02564a262aa78652928029f06613445f54972686cf7caa0ab5a61a1bd40030d467894c4c07ac010cf6d070ea1f74206e0c08512cf2f74488cac07ac6a14578585226b1b593a7d9a86c64b14fb07ba8a6a95419713fbb4dfed6cee976f11c3307dee116c54aaea494a81f3babaa167d5dc712d4de7" },
    Key { kind: "fast", bits: 1023, n: "4b0b12c0a4d1008eac4dd44499222486d9d10b55b4f4ab98573342149c331117a93f24508393daca4a11fd00ac52dff7573bc0611c92b3bcb35e636d5caa188388b493ee6e9b4cbcca2f5752d792eb4d70e2b213ce79ae71e0d16e3c1b214b2a891721116aaf65396294462b49ef9ce04f2cd3c89f7a5db793a7c67425f929a3", e: "1f", d: "10e3ca579f", p: "412699", q: "126def9ca0ded00371f7aed1f3e246a442ffcb9a9c41bf520799cbd90e9eb446600e49cee9efaa7a7c4cadda39012a5c73d5cd074f6a6260ec69dd5d5d13c0dfa5b5442539bc9ac1681f29c26121d72a0cade7568132207b6b9710668c7dc91a1d8ba03a82d6ed32e7becb11daff335a172d5d25cf7f03e84c7368b039b" },
    Key { kind: "fast", bits: 1023, n: "65c86d1f2456113fa0d1541143307242290c81cca87e9357981aef4c45212d825dd37c47f48dfae5246b837d6ab6387b289d1b609b9fa8157e55d0ec69e81b398ca25f80f058988aee15c60cf226f5b844bfca434b8f3191f563caf36b54d6cef91c77844e83c006eb37e17072dc7c63e302cbb69cf5323052a73f0997cd86fd", e: "10003", d: "3247a138b", p: "6d392d", q: "ee8f9b81d140f443b20b3db17059cfe1ac0f54e19e273a4377687c9459b77c34bed2bb75d6951c201a9ae23ca31811813ed900081e166232f39ece11e31d1bc38662d56e7d0325444bece3b89b0e0ee0423c2d24cafee421b906442f4ab94771e69d960e8cad7e0c9492ff0b5364d1b1435d17d33eca2cf162a8be8711" },
    Key { kind: "fast", bits: 1024, n: "9bfb8591b527f0d5218ad90ded47bc31975f822a03ac6df7d2756f18599778d9c0b3d29a3b50d0cd5e3e087fe3e6109d3b237c740b9ccfb78031b2da1dea211f9f1a954007180b5193548f6fb59cb086883cc21b81383858df5471dfe7232853eb40b4ee704cf0efa9cd78449c527f76177e1c5259551bf854d0d0652b9be4a1", e: "10001", d: "330a06b41", p: "3e19a9", q: "2830469e4f748d4897b14ee7b204b8e6eab82e3bf721440be78399d5261d0a8e1159d671192d21203d69b02d7deb9022092ccfe07e3aef0d49ebd40522b0f326e190604b8210539d8ad59265f6b327f495b05f569b953eeae0f8c774c7b82803293566c498ade445be5fd4919dd0fd69fb26c6f41a71ec09590d24f7e39" },
    Key { kind: "fast", bits: 1024, n: "ba09b97b45252fd162db6b35bad70b42338487df57542454dfdeb521bfa1af6029492c32e31f612a5d53d884b9bef7f9cc26683880883aa87b227f5bfb4d8f849340dc70670f00f755e1f8403c7cc1cc8d4ddef2d5eecfb1300b9fd22c80ab7d26d05835ff73881483b8463294e24fec04c25a781194554807ad0fe8e74d0779", e: "1d", d: "120dfb9b75", p: "1357", q: "99e91fe34487366663780c2b6abed58e4eeb4a81dbf94ac89f262d180add25cc52c2a9ddad4469696bdf668cb9ba2b845b55b4616acd0d366e742198acbe89a8789536cf785ebad7113986487b422382e9a7e36a540503ba0a7b799f09e0ce676f7b16aabbdca8a1564607eb62823fbdd4ad680f5cac2615048a6b2a449af" },
    Key { kind: "real", bits: 528, n: "b7e14908b951db793a24e408e40003fb08bf14ff2514acf51e33b5060484d1aebeee39d97f1b9f130757a363e0d820a89b7e93cb98df5c613a66bcc85fa365c36f9f", e: "10001", d: "2ae31f2b2b3a15e3f4f544c0741932d47aaa42a5edcaa03a7d8456dce3f1ec8c0273c9568f073b03f0b560731e7b68fe0603f58b1b5a6dd87a56ae4a504e6e791a5d", p: "c9cbf6095241342213b5936b529f83adb7ee46736c8db65330d255d12d6ac3ddd5", q: "e94553e4177eb196b8844d776e266374fb66c5e3137101abc2e39b26dab073eda3" },
    Key { kind: "real", bits: 530, n: "2b886a12962acf38f9ee47eb8c9e3cc689cebec3058dbcf7219fa107251fc21eeda9b0b12003200dbc7b184fb5d7c39fc8237e825ea1bbd3dc1208fec63edc358df69", e: "3", d: "7416703190722897efd0bfc976fb4cbc1a2752080ecf4d3daeff02bdb854b05279379b498d9f88886de83508cc0d42852e2d6110211a68bae80013e2284d0382fb79", p: "193909cac541f3b9afaa0b5b633ca889217a026c594fcbd5d966c78fe47a00af4d7", q: "1b9d6bc0220ae6d9945a610def8e054db10019e5de84c1ef389ac2673d80e3c05bf" },
    Key { kind: "real", bits: 536, n: "c957edec86bd1e01e468cad3aff7f4536d3688ba3a300c25fe2f5015607effa2d305a4e0ffa518c72a82b93fe69e14081069940e1415dccab38a304e134dceebd54c8f", e: "11", d: "470ff99ec624a12dd824fc4ab693bfa4f95e8a9c14896db30e6b0d34b8a54b2a688e9064c9ee57ea77d3b55b01915a6394d36c72a9ea5b73a401afd92832bedf3420e1", p: "e3d43d4717c5b7111600dbb252c78a7c22fabfd0e312e988970e3fc8cb2868a32b3", q: "e23d4ef104dfe10998205a707bcca98505bc7e044fdd474fbf7d824dbff978cbcb5" },
    Key { kind: "real", bits: 545, n: "1969bbec911de24a56998b5bdc19dd88a698795bc218ad62df98310ca0f5a8917dfe5492d5df4fa1a4a500099c7d5aa2fef3aa436d1a238fb209027869e0b993772d0ae8b", e: "10001", d: "b2d0194de98aacc905b03fb48c723329639159db1b5128319db9f2e7396b5240ea9791c23d24718b3eceb962e2b7f2da819076f058befbc13792db1d546e38ae67253f39", p: "19af0713133606e568b0c900f6ee0082c867bc3b15e4c724e2193c96df4584565e515", q: "fd4d529abbc24da6de697719394f3dd6294e5f3f5c860efa53c1c017aff821306d1f" },
    Key { kind: "real", bits: 640, n: "c4f9cfeee01119175ce74c6a4c8187a55d0a77e810d9f19c28082f1be6ddf19fb8263233222fa859ecb33eec63f1a50d4eb4b5715970cc84822f12a1302c4ff50e4f16ba48fab6ec01f84f838bffdd69", e: "3", d: "20d44d527aad842e8f7be211b76aebf0e4d713fc02cefd9a06ac07d9fbcfa845495bb30885b29c0eb1d682c8a66e20d370366f07b040378e331d451e3494c7ffafe0c02f074544c9ffe3b59e0315f379", p: "d5a1b06a00b5f4f0336148cfa7f088455693fb2e6a45375b673d9dec1ab0f975bfb6ebb2f652ea3f", q: "ec0a7dce7ca6eb287a0cd2738ffef6e9f8eb78bd8a6a689b87ccf7b402aa20ba42eb221c83293e57" },
    Key { kind: "real", bits: 1024, n: "c77832b31f2ffb84ffd984219bba198e83d1ed4e08bbbcf1d1f62559cd100448191d40cb5e0831aa9a58b8bab8f2e9624621af8718760d93f01c4ed614d24a69e5502898c94d407457b2bbcad45b6e724dfb755fa88ff9de5da3506c357450756dd9dc1fc1cd8de5b4b56f75fcd75c594fa15800271c93070ed48ef249afeaf3", e: "10001", d: "206de21998079b85e9cdff2588500f13f49f73cc1cd9b4e415c5706e1df62d7eb1429319b27874e6ae804a76e501c26ac7f475b93f8355e81d808f5aa3ce4a958cf48741e35c1ccaef0d071cf0fea87c65d103638386305539c48d7b1c2abf942631be6bed9b523b77b71ca121aa0748e795801a9f9c9520b45e979ef04b5809", p: "ec9ea2761d2fdc08aaa99d8a5ac2df09e7db5bf8a1e1f5304b36ab04985f14de9efa29f5cfdca8bedbff82110a21abd202143009b82fe7ffe6aec226416e974b", q: "d7ce9c73403b2a6733e4e6ed5e425c6c01f6e37a5c9404514f868763358c27a12106050a2733bcb53bd6b61f883321446763ed04ad09548359c586819b9369f9" },
    Key { kind: "small", bits: 9, n: "13f", e: "11", d: "21", p: "b", q: "1d" },
    Key { kind: "small", bits: 12, n: "9c5", e: "7", d: "67", p: "29", q: "3d" },
    Key { kind: "small", bits: 16, n: "a99f", e: "11", d: "2295", p: "ad", q: "fb" },
    Key { kind: "small", bits: 17, n: "187b1", e: "5", d: "26e5", p: "c5", q: "1fd" },
    Key { kind: "small", bits: 24, n: "d57eb9", e: "10001", d: "41ff93", p: "f7f", q: "dc7" },
    Key { kind: "small", bits: 31, n: "4aa99a75", e: "d", d: "e5b7325", p: "4db1", q: "f605" },
    Key { kind: "small", bits: 32, n: "8568231b", e: "5", d: "28053539", p: "bd17", q: "b49d" },
    Key { kind: "small", bits: 33, n: "1226bfed3", e: "10001", d: "64be38ad", p: "c827", q: "17375" },
    Key { kind: "small", bits: 48, n: "81fc9632cc77", e: "5", d: "1db6135f515", p: "9ac01f", q: "d708a9" },
    Key { kind: "small", bits: 64, n: "8fe23a83a309f2af", e: "d", d: "588b37b2827e791", p: "fdedbd2d", q: "910eb0cb" },
    Key { kind: "small", bits: 65, n: "150193facd5787127", e: "5", d: "b340aa7d12c2071", p: "f9a5237d", q: "158a78073" },
    Key { kind: "small", bits: 96, n: "9873e9cb4d5a51b70798c547", e: "d", d: "1f45b9cdce3996efc00694d", p: "a42b173ff14f", q: "edbb2838be89" },
    Key { kind: "small", bits: 118, n: "2dda986de5b93332cc3fab5b8cf555", e: "10001", d: "afc0022e772a7a55c7aecdca32f2b", p: "7f884b418855c47", q: "5c0b454f0b2db83" },
    Key { kind: "small", bits: 127, n: "4807b19d34cc2cc8f218ddb84e96ea53", e: "11", d: "65b082475998b7b0c2718d77baa6981", p: "73cfdc6cc4ed4ac3", q: "9f38926c101e4931" },
    Key { kind: "large", bits: 2039, n: "4016c9b9231677dcdacf338eeb09eb580896950dfac2d07d9fd9bbd7ae3fb28fa357a08c41ba65085b8527b1354f8e81100dbf1fcb7b3edd572ebf343b94cdf7c82093e0587e16f0052b8a0d0945ef1e4468f4cf0941ac609bee05df7252e46ed0ac50ecbbceac81c83b45f92792ca1b9880258089388e5b38cf20dae9626fdaa570fb51d3bc00a691c65daa290d6a683d5458adba1e5af0262474ee15d2a381a171d91af3133a772cf7e6392d3dd5000e614b36827036410bb5dfcfec553cd7d88108414bfeee745594e50d22294e70a0d7260cd820c5f6e87e4deb280f01cc3b16a2202723e5225fba2017d246f3c24710cb6b337f182229f7daf4966dcd", e: "10001", d: "17adce02e901", p: "3eeae5571", q: "104c434b8c669dcfca05a8b1acba4a4aed5d079e5151d788aad1f8221399542dc51d981e8b4c3242c6b2111aa82f4ac07636d6af74bc88c855176a863bb599907a5878b56b66b2bd96ceef5e2be204abf10b306b64123a1c78ef635b5e4c7eee51a140e58c3ae8fdb34240bf5e9a4df4f5d2c8e72fac348837ecd6913d8d66db8339a38b59e627ea74b1c55e87d66a1356592bbc20697e5437d42d0b09d9ace4636db55dbd006754d6385ebfbf00220feaed7faf1ed674ca8580573fa37d112ae00d784f6f3bc323d1b3be345279df346f068da2f67167591fb1822391a3d20a61344526a6e48b0630fb03f0c6dff5e0b3df462c0482a80de2c01d" },
    Key { kind: "large", bits: 2040, n: "85e48ca87cb3480c28a31c332ab0f04d416e9077ee90bc1b6de5d53935d072cb558fe497367a2e98cd5e4d21fb5cb1aa421507eb6684a6a8e3ab5d2db166dec94b3ffdd9875d82a1e3a2faa4b149dfd3262870bd36951354c4b307bb6fb19eed3be335ab22f8b2ada5bfcb402abd83e18b0f4007941c1ea9cb380f0f32213a60f8f390d7a5290b94f93e9104e4973b04939cc6c3a588dc648c19182bb9a664f74eebb73871adfda4a7d28e734b1fc61717a07f7970ac9a356d134214b21a69d0cff033ec2c0560a99d4a0b85983616e8a6e4d17636a5a44de6929160ec744e66bd8c7f0dde6a4df33aa7a0087939033ad9d75f523ae88868e681171329f347", e: "10001", d: "17adce02e901", p: "be4af7", q: "b42012512d386ff85f6799df4c5edfebc65f4ed92c137a8b10cb2f8b59d0e35fc0015b8b5f7ac201b982b66134f1fccf174ecc554c697322d99c1300d34e237771db65d416a62c1eba2fd92817250e8700289c16c949fa40beb118ff1c120234d83ae7c3c86fa466f305adfc7d26b477f592385a8e3acab27eb8decaad40214153833a62909f2dda7506af64b4e3676acf6f81df03b9695e94562dff077ad68e824ee3499b1718b22a6f01e9f367540aeaf54896a1d0284e0fa8fac7a2449218d1ec902a1bf61e5ed0468c5ce7a662c579f3ead4df0a7c0eb8146b9c7311a4c0cc9b64ad9709a4f6e3df0d10d3342e4e4edba6ba148d8bac679eb631" },
    Key { kind: "large", bits: 2041, n: "1b51e353a4c2cf1be5e71f199aba6432a1cd795c47525210e617e804a4950fecb12773e0ecca1964ca6e02a8764f778cf90c7ba533373cedf36c4dccea4eb69e7839305c890c4e760c9df2c56d464c086d506a75b850bd68f060aaebb73f78ebfb53d5b49060e1d4e0805c7203165a9539008db28a3fb252836fc8b4e0c8ae5a02dd29a452972dcd953c8be7b6cbcc8e7e863dd526d5f712d76415e733b80adbf09c86b88e91ae994f010e72092b0ad81ac203682587fb6b079d62a3873b3a2a6c1e0f7350267592920ed26fa7de845e5bac31d02a7a212f4e8f51b7357af8ca295560ee623fd79bf3107db354a5a9d750610356dcd340d6cc8e333bc1dca4d", e: "10001", d: "17adce02e901", p: "37cfdb", q: "7d4fcaf7ebcd0c0cc4bf58bf8b4a05863ef566bb78522d17e993018e8b961c8c877304ab14c3493117d4e93fdb6863d143418c2458293d4666c36a7bffc2b2b2d05be338c703c8d80540b55143479318779893e6dfe9904c94fe80cc1c0a31c397bdf806f94c09b0d7212c9c360e04ae4ac8125f8ce4390a07229c77dad705eea2203bf7e35e587a8dbaaaec8874e578c18479c9c138798cc6306c0210fdd67188a71f1dec3cce5f0c204ee2448bdfe5f35ade3fc75e164841c0b81f9132598ff71c590e356b8fd2aab822e84b4a17822b52e2d0cb01b19194aa37657933f280a24af8e40da1a40e0b02acc514e4def7c4da3581fb1bfd2a92df81af7" },
    Key { kind: "large", bits: 2048, n: "dcecf62f60fd44b58049fb06b6072e3a29cbdc9c0f2b337b6d99f686bcfb7a7abb9e629996472ac71eec348facfc7b513f630702c15afb6314e3130c7792bdd9aeff83ebb7e23a506a82b7b82087eeb1804238c51851c4e4b2ff0369a07a26afe99b96e25b081e5cc5f91cf35bce4770e6f5272f772d330bd53161fcd9e869d3856e3d8b7097e0df8845420f9c7c08e4a68b28d41793fbbce6681195ee969c2fa9fa894606f4880ada3344a563b3e5df9c82094ad3584e75a29af9d1e7159bb1068f85f34e9878abd565c146ee672bee546cf3f4abdfde65b882e9ef43a279541ad44a6fa1d550a90f20ca488d65e8470e2d0bb707e289fb5039c448b2b75af7", e: "10001", d: "17adce02e901", p: "c53dfd", q: "11ebd1d8e3670bb2f6a8e97b429ced5ed84431215659e54e45a0b79e52ac3f8e07e4423d608ea943bbcad1b17939d3fa0b8cc38cf204d6e79281337b397b0df3df8fd5280449831b76f530b9486c05fbfc2d8146e0a46e9b33d7fa2b97443ca3e05247a4b95a6066063acf7335a02b46c2ab89fcd39a0ade198cff0f2eb13eae48987f0b596022d9de6be04ddc54dc600ca4b993284ba62f5c1af7be9e1542e0da403dd404f3be69cda345142b1626584c78632d91fa69379fbd45b6849f04e6f8e3edeb8a98faf3fc5880225b11ed1ec501e4d646dc0edc0d87c6affc04227b64511cd3bf3f05393aaae5eee97af638342fdde3c03d6d28459324f7503" },
    Key { kind: "large", bits: 2049, n: "1acf100ed1a5eedf903fb58fa586cfc2732f90b610e54fcfe16c6bb82362ea8442d0b41854609ca10d10a018a3b79c62e4cde0abf16be4ffffbb384998ccfc6acf457acb2a715e267b1cc7d2779a0f1963f54feedd3007978451ebaac87ec22ab9e99f607e14ce5f1c125d6631954cd3430ecb7320d1ef367c97c5cbdbf4bf3c24fdc510f92a95cc667571730f2f737b426e0edff9d7776a76160cde604cff8d6a3d09bedd0ec267705d145a699ca351b77dc7881c16e59922a0d8343aca0af8c4d9001a40def969940e7e717de6627f0d2965324bbd2dc53a7aa1acbf6af87161c78795a33832c188c7640b744de938c004e1529960066f14130d0e9b1639f15", e: "10001", d: "17adce02e901", p: "1538a11", q: "14367e5e748d16b6b62e57f64c35250a8979660d961f53ca1b1e7e798849894ecf1384052f6f88f3c7c8ad6c9ccf91ce8b8a2676963baf15a37289f5e5a242fb69f228f1a97f959c96db0b1ee7fcf127b7e83d912eb261aaaf10c69b446c69dc19da4b815adfb389cbcb6860393a319484af8127e923f36d67cc4fdef383e7cdba4c08165384371ca1203bf099ae29d44f722148d6be33d29c67455571004f33e10c4ae491a62fafb95ec2cd7c87d35164e047b0625b7f6dc699ac4f659acebe54f81d3babff77868e69904c0ad18f56be3672312dcc1068161c8b9174da7bc6b896e710a85294d04bfa69bb26d017c3ada7da7957304e3cf029f1460c5" },
    Key { kind: "large", bits: 2056, n: "eecad46b025dd4470a687a1073eb1b306781a024342572a9ac310e0b2b2284bf60a52965264df35ec76709997c36918bd8b3a945020b7a10d006931919c4745d229d997b1df305aebcdb48d876166590334dd060deaa773cbce578052736afb0a7d5888f764ff532ceb6357c4a4df951dbe0470f5feeabc5b0e0d557a7c8e6995a302b0602da110c89f8fb1566ba801cfec50bce1e8c4f38e90dd697579a47263ebb8069a334adf8132ffb977f6051d79812be33b7f73809a21dfcd98be2c96898be1185f78f77fd9cf13ca6a96e4b23bd3bfff305bc915aafb80452cd6fb35faf05f79111e2b2b512310602031bd37a5b54badbedf87331d695afd5d71e986c63", e: "10001", d: "17adce02e901", p: "9b54035", q: "1898f26927a69868328fd72ad7e41bf74342b76d75d52da25eb0722d8b305879ffc6b7c2815a61dddc1dc7b58eef708167f385ce90d00bc06ae14d6edb88aa780a0669785e5de6eec044cb57661af7b9cff2d9bd91ca6832a9a2b9748618ef2d31a819e23f4b2168f7182dc4f45116672b6aa15e76907ae9575e89b22fab6e867655fe7516f66d94418adbb78cc252f8469f0f157889805974d5abbaca2863d854790133d8f4a345ce56a1f774ec69713f249fc741bba6a229d558949375de8fc46d52925b5d43dd36f823ab26c2ed7f05b2a979bb9e4884c4b6e4afee4ac2bd81033e3a4abb7ccad93a7c484d31182115d8b0b162e6dd13c18ee84f3d37" },
    Key { kind: "large", bits: 2057, n: "111421a2d3ea579eca6632d90d84f93624177bb8bfb67b5b58f05bdcebd4d7978cbf196df5fb8a2aceb54c28d5f3792836a385fc708fbed85391d596d2d4298339d44fff43e29ea6033235db427a4e694e70acb5d72ab7093c21d473df7ef4568fd652546999e2a8ccb8a3fa44bceae721818c457a56e78bd4d3b38799e572507cf07cd1fa9261848be67fde84479a5620acca8aa9ca7fef5131193ed39c5669b3bd00939f29a6941afc92844e2c9b123bd272228c2ab14f2394bc48609f48ac1be1e949287f3a63001e20e354a346a9786dcc60387d98b5e9e83ea613ad23523bb1d8f5ddab7bd81a7f7292709a7a2643ccb468b200121f1a4b8c2f23cb681ea33", e: "10001", d: "17adce02e901", p: "2ad63bc31", q: "661092072051c4a7907356a1d1abf0a7b8fac1135840103a6df77aa4424748cc47b1dbe03c5a4496716d3be0574b57f2aea9f5a8d7eb39cdd866300e9f7cd0ea2ffbb15a4e0aa3f05281e749d16d49c4f69320064975749a7a4e307103fead2ab0c27205eef2637c4b201804e16804c4195b9388f6e0ac6987f5f66647aa1a2d3d32ca23ae98bbac218de5a1c2c16ed7f45cd0880c626e87e9c32965b582a66cd2980a11f8f52a4c1a4c3da115ea5ec47ef502d3b0b528f5bb0d80e5a467043273c84c06ae3a9ad4ed2bd9a0868200ad6ce884a44d22a1c72446e2ed7d7b44b69b429f1173a15be12a6dcdb5870d59ce9d1b814d4e10f9bdb8e167c7a3" },
    Key { kind: "large", bits: 3072, n: "863e2b680ac1b29874b42d9687bb3595ce52b6355eeaa335f0ae21d87dff1fa24c6cdc7ba56977b616c25f512c9322731907ffd5dfb0cc0b567ca6a6b1a80ee9ff3a72247abd7e2ef68b53eb52653b1a914b05d6933d1653ffe147bf0cc7ef8a56c5cda432e5398c2d3210fd7eb8e424d502bca84ab3ce233d541264fd7d5c7ca7110338dcd072fd3708e42f97fc7c537c8eabffeea6ff2d17b6cef7906c85806f280d206e71f2d9add51dfcc64a05587fad470da6df90a2ec4be646a4b7519130baeaa6d0ad600ca0765bd9a61298e5756c4f7f1620c9493f8b8d8bdd825d67cdd39531564e4f48041f20f19577587ae0b613843584b0b7e2f5da6f50163e1856dfdafdf7652cd1099a004302dd9097333579c1c885d797cdd2dbaa713207c2398f316c6cd3d59802b99410d29a879adc90498227c74be66a7fdf1abe3921c65bcda4d8b3c42e584063b30e49ade22e2b9da5e4ae0a177a0c8ff1d53b772070d7919018f388316fb51e9b8ec00dd360cbf73d8ffcb8882c40df64b351d46729", e: "10001", d: "17adce02e901", p: "187c783", q: "57b7da6b7d55f15e2f204f74b1ab231e12f8851def52ae77d256a0fac77b91061c74f19b2aa98304e9046738c0e884e6fdaf3443d2f8347979ea35d22c59b84a86de4303b31db3aedf0ac74dd5613fb7810282dc5c4da23526fe8a19d38087ca51d9cb43ec693633db6e9ee951dd353a70d6d4149fd95ddea28618380254635203980fd49ebac4ccb57dbee5b7265841a49410d0eb7880558dc6444958b175f621b206df41b9096a81c82bd989fbb4c144b5fe4fc4e59b6e6423ba1d41f4440d49b53e3aba102a14b7dd3055b28f591abd3e8a2cf67c832f814d1540c0afc2926865d14475da75f3e9307b0b36db4fd485fecc3320eba95e0b40ce6fbf90235efdfde8da0b9e29331ea115d91b72029142c493d3a92559b35f417d102e3cc3acdd558fd01b26216e545d536110af654d7eae42eda38dc8ff187419c200cf0b67267d03e8e1b5b9ab7e688c2db6f078e3496118cac8d1a81849c3e11c28d80a3739e2bcb58383a6d3412b1c9c1ecee30e07c5bdc9d5407a62f1d0112ae3" },
    Key { kind: "full", bits: 126, n: "2dabd3d7c5d8194a273f710bb942c503", e: "10001", d: "276591d8653a66fdfd18d507872bc1", p: "1a815f49041", q: "1b91c9fd69602c28000443" },
    Key { kind: "full", bits: 127, n: "4cf9f28d6d25c5526d7643d4c3e890b7", e: "11", d: "16a3dded5c5666eee2f43f9f11a476f1", p: "511723e3f06db7", q: "f30319edfa70c8f501" },
    Key { kind: "full", bits: 128, n: "91de8953a2a1548007f9fd7d01ea60cf", e: "7", d: "a6b52f3b0301457e9ebf5cd1a73dd6f", p: "29e83c96c34e7", q: "37b13d0fedc1c6280fd9" },
    Key { kind: "full", bits: 128, n: "b49ff9fa0c80bacf16fe1b490a69231f", e: "11", d: "54fffd2a603c94244541db3094bfc031", p: "73829cf6a6f49d35", q: "1904f8c8b275d0d83" },
    Key { kind: "full", bits: 128, n: "c0b162265eadfd5363c013a7b517973f", e: "b", d: "11847d494e6ce87bbe33908ea8c1ba6b", p: "6b25cc75e841045d", q: "1cc6311108c83904b" },
];
