/*
 * IRC - Internet Relay Chat, ircd/version.c
 * Copyright (C) 1990 Chelsea Ashley Dyerman
 *
 * This program is free software; you can redistribute it and/or modify
 * it under the terms of the GNU General Public License as published by
 * the Free Software Foundation; either version 1, or (at your option)
 * any later version.
 *
 * This program is distributed in the hope that it will be useful,
 * but WITHOUT ANY WARRANTY; without even the implied warranty of
 * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
 * GNU General Public License for more details.
 *
 * You should have received a copy of the GNU General Public License
 * along with this program; if not, write to the Free Software
 * Foundation, Inc., 675 Mass Ave, Cambridge, MA 02139, USA.
 */

/*
 * This file is generated by version.c.SH. Any changes made will go away.
 */

#include "version.h"
#include "patchlevel.h"
#include "patchlist.h"

const char *generation = "1";
const char *creation = "Thu Jan 1 2026 at 00:00:00 UTC";
const char *version = BASE_VERSION RELEASE PATCHLEVEL PATCHLIST;

const char *infotext[] = {
    "IRC --",
    "This program is free software; see LICENSE in the distribution",
    "",
    "Based on the original code written by Jarkko Oikarinen, version 2.6:",
    "Wiz          Jarkko Oikarinen         <jto@tolsun.oulu.fi>",
    "",
    "The main developer of version u2.9 and u2.10 was:",
    "Run          Carlo Wood               <carlo@runaway.xs4all.nl>",
    "",
    "The head developer of the u2.10 source tree was:",
    "Bleep        Thomas Helvey            <tomh@inxpress.net>",
    "",
    "The current maintainers of the u2.10 source tree are:",
    "Entrope      Michael Poole            <mdpoole@troilus.org>",
    "Kev          Kevin Mitchell           <klmitch@mit.edu>",
    "",
    "Contributors to this release:",
    "Kev, Isomer, Gte, Ghostwolf, Bleep",
    "Debugging and support:",
    "SeKs, Maniac-, HeKTik, OmniDynmc, Liandrin, Dianora",
    "Special thanks to Angel and Buff for believing in us and putting"
    "up with frantic late night phone calls"
    "",
    "Thanks goes to all other people who contributed to any version.",
    "A full listing of all coders can be found in doc/Authors in the",
    "source.",
    "",
    "Sources:",
    "[ IPcheck.c: 0227b6f21c4bd09e1a0ff3b4bb1cd9a4  ]",
    "[ channel.c: 3009a553d70a2ff5d1c52b6383e332a5  ]",
    "[ class.c: 8ef813328bcaba84e77827d108bd4415  ]",
    "[ client.c: ed22da145bfe3babf26d2677b12cac9b  ]",
    "[ convert-conf.c: a4fbbce0362d7aad72676fac328f7435  ]",
    "[ crule.c: 7d723b77f7ef4e39b18ee64f8ac24fda  ]",
    "[ dbuf.c: 826a8de9dccab926e579be95bc060569  ]",
    "[ destruct_event.c: ce9a922e82e6f7cb97b10ca1cb8b3525  ]",
    "[ engine_devpoll.c: 05c3a9f952796df2e693dfcd2af49cdc  ]",
    "[ engine_epoll.c: f2e068f63b53085cd7e49670cf09c00a  ]",
    "[ engine_kqueue.c: fc7fa321888b78322a22c68751e0a42e  ]",
    "[ engine_poll.c: 9f3be7cc7f807d1b6f178b14af7e0f37  ]",
    "[ engine_select.c: c37a8cb7586ad96337a6696a0cd0b32a  ]",
    "[ fileio.c: d8872367d98ec1278ecdb1e83ed2d74f  ]",
    "[ gline.c: f2b05a1842afdefeb7d83b90867518d6  ]",
    "[ hash.c: 3e727662e50a5ff5d0b0dbc1e8443a93  ]",
    "[ ircd.c: 9ac68787ff286c0dfdc57e7838891faf  ]",
    "[ ircd_alloc.c: 19998d80f059a3937ba41d930b187b94  ]",
    "[ ircd_crypt.c: 2919619824316b990dbf7fc3c5164e28  ]",
    "[ ircd_crypt_native.c: 1682aee0db9802f44a84e9ff616e8e58  ]",
    "[ ircd_crypt_plain.c: 05f407aca6a5de7677bebb1ad33180e5  ]",
    "[ ircd_crypt_smd5.c: c54689931fb7e18098cfdafb352ae3bc  ]",
    "[ ircd_events.c: 125d2fb06e2f9d761b864e5cf53b07c3  ]",
    "[ ircd_features.c: a516436ad0967206a0894fc1aa55cb45  ]",
    "[ ircd_lexer.c: 7342eeab6d7ba7a807ebc90ff9057dcc  ]",
    "[ ircd_log.c: 24a0d107bf40ab21e4c06d708e6f045f  ]",
    "[ ircd_md5.c: 150bda811cdda669fe9d2f3340b4dbd7  ]",
    "[ ircd_netconf.c: 44f39f6d3c9bc8e69777d618b6915572  ]",
    "[ ircd_parser.y: efce49557d42c5772354392b52f4c513  ]",
    "[ ircd_relay.c: 8d70600d30559d4ab9ca103b6fad1203  ]",
    "[ ircd_reply.c: c329bcd929111abb4973b201a7ef991a  ]",
    "[ ircd_res.c: 43b0397948a86d32a6f92cbd1881e443  ]",
    "[ ircd_reslib.c: 2c52732c35c62f5eeec81fb6dd3396c9  ]",
    "[ ircd_sha1.c: f8369791ff2cb348218ce2d97dd14baf  ]",
    "[ ircd_signal.c: abf2e9874b6fcbea6ea750bafe8f6968  ]",
    "[ ircd_snprintf.c: eac02857327e90e15947065cf9b9b8bf  ]",
    "[ ircd_string.c: b368ffa069cddcf5cbe660c404ebd305  ]",
    "[ jupe.c: e1b658d8cc79009d3403b14a4ba5f395  ]",
    "[ list.c: 7c2e2c5925fe37c9bd7884ce6a3a6205  ]",
    "[ listener.c: be767bfdb223fd5de309b54d6ec1f188  ]",
    "[ m_account.c: 8966725886dadcedd3e5e26d1aae75e8  ]",
    "[ m_admin.c: a60d33d99b801e59c4c3306210fb90e4  ]",
    "[ m_asll.c: 51f4e4e98ee12016db94c8c4c201d212  ]",
    "[ m_away.c: cead415415aaa61395755d47fd5c0f9e  ]",
    "[ m_burst.c: 126d330b6840ecd824d57104f727875e  ]",
    "[ m_cap.c: 84c9bd84fc49ed5b5c8012605bc899d6  ]",
    "[ m_clearmode.c: 9edfcd26fb405ecd998c5ff4b04719a3  ]",
    "[ m_close.c: 0c1d6593eb371ea62a94a7ab9e07ff61  ]",
    "[ m_config.c: 3882245efc35a0ba2077a6ecac54b353  ]",
    "[ m_connect.c: 6d8c667cf2265dc3f06a48c1d1f879c5  ]",
    "[ m_cprivmsg.c: 49b231c3a502e2dd0177baaad05b26fb  ]",
    "[ m_create.c: f1084118531e018535a73a252dc0f0f3  ]",
    "[ m_defaults.c: abcd367133e3874bfd87f54406886020  ]",
    "[ m_destruct.c: 84efb0c0166fd3e7bbb32b472e09445b  ]",
    "[ m_desynch.c: b99f3b4f00bb1c85e09eebf9456d2183  ]",
    "[ m_die.c: 9fd0bf296b654b8f675968391a3de05a  ]",
    "[ m_endburst.c: 4c2b32a25691237df71d1eb0045a088e  ]",
    "[ m_error.c: fc363670bc8ace6beaa128882b4c96da  ]",
    "[ m_get.c: 866b3939e85579f3131d4d6c18b57e31  ]",
    "[ m_gline.c: e2bae29faa9c0e3303ed5b189fee13b0  ]",
    "[ m_help.c: a741bed129245a6fc6aaabee41729976  ]",
    "[ m_info.c: e95c92bd26cbf771e7fa2d440a5d962e  ]",
    "[ m_invite.c: 8f455a3f9c137bd5f10278e26f441e00  ]",
    "[ m_ison.c: 05d9da8a3141d8ed7bac6094743be2ad  ]",
    "[ m_join.c: af21da5b00ba778c3328c7865316f0b3  ]",
    "[ m_jupe.c: 75af329194a09ffe3fc09557e4418af8  ]",
    "[ m_kick.c: 1fb61a8f6ef00a7c9e89ba4de560a4f9  ]",
    "[ m_kill.c: b86060a294d040138bee921e94c5aadd  ]",
    "[ m_links.c: 44f297541dc416f10a485b4b3a6ad289  ]",
    "[ m_list.c: cf347739d3fe75ec60e35c5520559c2c  ]",
    "[ m_lusers.c: 8f30f7bd2876033eebbaf11579be4ac3  ]",
    "[ m_map.c: 9b1e349f6760e12181f1cf8ee35b254c  ]",
    "[ m_mode.c: 8270919af8b6da4082e3dd0deb7ad0bb  ]",
    "[ m_motd.c: 5a6994864b69d2b35ad500687916e59e  ]",
    "[ m_names.c: 4bdd082799d541dc216118fbcff093dc  ]",
    "[ m_nick.c: feeb31efea0d144ccc40dee122b15ecb  ]",
    "[ m_notice.c: 3b2924c17a7f71f85407e16ca52d6a22  ]",
    "[ m_oper.c: 1d5595ec33f610eb28ad66a94f910644  ]",
    "[ m_opmode.c: 817ad075f47b3c4713f1ab9857837f7d  ]",
    "[ m_part.c: 95ff179370ed51f6477abbef7b794e1a  ]",
    "[ m_pass.c: 2f1f4721c6f81253441f37233cfa224f  ]",
    "[ m_ping.c: afd48f66a92d3c059f9d7a69bcf1e3a0  ]",
    "[ m_pong.c: e8f53ac0a08fa17a941197c2be55bfa2  ]",
    "[ m_privmsg.c: 93cabff03dd3ad252e9120357db51ebf  ]",
    "[ m_privs.c: afd9e278468358b6d1f65551696ab8d1  ]",
    "[ m_proto.c: 7e15bd38aa21900c38cb7aafc90151e6  ]",
    "[ m_pseudo.c: 059e6accb02d327e7a6db9f245933de5  ]",
    "[ m_quit.c: 3888e7ce1701034413675752ff699298  ]",
    "[ m_rehash.c: 1f9db2544484d3932600d4d2c55fc317  ]",
    "[ m_reset.c: 4b4bd621339059f37e154a32bd1b084d  ]",
    "[ m_restart.c: 811c979626026c8aaae648d98b9b5011  ]",
    "[ m_rping.c: 393bc8af6fcee409084078480221e64a  ]",
    "[ m_rpong.c: 4f4ea2684d9fd798bc5426ed4608aa95  ]",
    "[ m_sasl.c: 47c7d9954ebfb861568c9a133407e67f  ]",
    "[ m_server.c: c11ebb363eda4cbf90217e176c377611  ]",
    "[ m_set.c: fda29e16a37962def8ce63dd62ece64a  ]",
    "[ m_settime.c: e591980ce340a357f6dae7f37fca4d0d  ]",
    "[ m_silence.c: 8a138ca99cabcc5fb22ae81b0728c544  ]",
    "[ m_sline.c: 04cffb2c2b5ff054d9a7ba076f72cda2  ]",
    "[ m_squit.c: fce9937b323fd8c9db1fd1053f0ef269  ]",
    "[ m_stats.c: dcc07e7d6eaba2596902922b0ad5945e  ]",
    "[ m_tagmsg.c: 1ba5680dac4fcd2fa523a201ee5f61c7  ]",
    "[ m_time.c: 9aa0c2f3efd2ce86323a20fec333697a  ]",
    "[ m_tmpl.c: 912123fdffa75b8e1949abd786e04bd3  ]",
    "[ m_topic.c: aade14ede4bad9d2f078cc9846d50ad8  ]",
    "[ m_trace.c: 7161bbf6d601301714ff20023ff48531  ]",
    "[ m_uping.c: c6404edc9d7775a99a6fae9dbff28cee  ]",
    "[ m_user.c: 403234e9acfb51ea2753f48d5b5b8bbf  ]",
    "[ m_userhost.c: 93bc5d7a2f4b3b99802c305c3f761210  ]",
    "[ m_userip.c: 11b03dcb22453bb9d2777854590a73cd  ]",
    "[ m_version.c: 043b558628a3e86c0063b49dc881bdee  ]",
    "[ m_wallchops.c: 40ccbb903ec29e8ddd700820ab48a8fb  ]",
    "[ m_wallops.c: 6f41e94fa6b06a24cec476fa13b50b20  ]",
    "[ m_wallusers.c: 04a2296da29141d765794d00b32d4e0e  ]",
    "[ m_wallvoices.c: 57344377057860970e5535697dcf3187  ]",
    "[ m_webirc.c: dcd5a8882abf58f12bf203f2efecc1bd  ]",
    "[ m_who.c: f3552a3682ac5d8897683abaab8d62f9  ]",
    "[ m_whois.c: 05d7c06b70c30e134923f31fb763596b  ]",
    "[ m_whowas.c: cd05d5c7f9e1bb238e658fa777609df3  ]",
    "[ m_xquery.c: 5fc42acd864e185220f4091548c6d52f  ]",
    "[ m_xreply.c: 264eb9f9a657771d88dc43306fc9ee0a  ]",
    "[ match.c: 44a3a7cdd328fce0331180f726135a5b  ]",
    "[ memdebug.c: a226ec51fd3b52aadc648b24dcef29bb  ]",
    "[ motd.c: c517ba91f1dc57a9387c8404fe99ecde  ]",
    "[ msg_tag.c: deed920236a35838df6c810f04bb2aa4  ]",
    "[ msgq.c: c8f29729ef0bcc8fe32a0b54c59b61bd  ]",
    "[ numnicks.c: 6867ac07bd81e899e6cdeca4f847ddf3  ]",
    "[ opercmds.c: 666db976eba012e9f62f17b9175cc698  ]",
    "[ os_generic.c: e1e290a6a8132c90a52f8db1fba15b6c  ]",
    "[ packet.c: aace37433a72cf0cbc68516d3ff1ab1a  ]",
    "[ parse.c: 88d38f8e3da233c5a64fe8db5c7aee18  ]",
    "[ querycmds.c: 945aea3c57e670d554a7b61c520280a3  ]",
    "[ random.c: 2557c69d3659029711116a2a9c0ce20d  ]",
    "[ s_auth.c: 753a3ecc4be74da1031f63da593d028b  ]",
    "[ s_bsd.c: 6a209ae5758903a543b83cb0d32788a3  ]",
    "[ s_conf.c: c7a8f211a1c166377c1c5db8884261fd  ]",
    "[ s_debug.c: a4149538cd3477c239b0f068af35d297  ]",
    "[ s_err.c: 72fb6a3416b6d4d517961ded00c0b6eb  ]",
    "[ s_misc.c: e9a818b36591ce6ec887e2f01c888f66  ]",
    "[ s_numeric.c: 049289d31c2061b004444f7094141d35  ]",
    "[ s_serv.c: 589df9c83218b445a321c6dd0aea0e21  ]",
    "[ s_stats.c: 47bae85daa03c8a62d10d243170612fa  ]",
    "[ s_user.c: 72e5563074d19cd66ae132434fc86876  ]",
    "[ sasl.c: 102dd6edeaf491e7f1de5ddd96f930ba  ]",
    "[ send.c: 25e6e161f27ee0973d1d26bceb3ef9e2  ]",
    "[ sline.c: 04fbabbd7938a5cf336e30490faf710e  ]",
    "[ table_gen.c: 8d2b82d14ddd1549b300c2fb21d2bb8e  ]",
    "[ tls_gnutls.c: ca83e99f06f30a81ff5f8b85315a544d  ]",
    "[ tls_libtls.c: b41c2117791f96cf32a07157a4701cf7  ]",
    "[ tls_none.c: 926a8fd853aef76f5285ed9b4e5879c8  ]",
    "[ tls_openssl.c: 63a8cc28200931fca5500f5981a32bb9  ]",
    "[ umkpasswd.c: decf48473a516f68d8b565e6b442d11f  ]",
    "[ uping.c: 4c4877138f7f0874dd6d7a112a3f2df3  ]",
    "[ userload.c: 43f24643edc5d5210583834e13ac722d  ]",
    "[ websocket.c: 4d2e41470d5efa3796358f6a5ad526f0  ]",
    "[ whocmds.c: a3f2867c17c22e5672c2fe5c8acf4480  ]",
    "[ whowas.c: 940cb2282863618144993ee25194f33d  ]",
    "[ version.c.SH: 7de26be6a2fcb0ad80c974484c044720  ]",
    "",
    "Headers:",
    "[ IPcheck.h: 19adc3198cefb9e9f579611de377f4c4  ]",
    "[ capab.h: 70c10205bfdadc2aaff0ff1771981753  ]",
    "[ channel.h: 77008631d04c955cb2c99f16982a4cc6  ]",
    "[ class.h: f40682109b892072a7bccbe6f82c8725  ]",
    "[ client.h: 5b220f88508276551f33026e4929b8eb  ]",
    "[ crule.h: cfca78395dc5ef64c639bd7d2d057ddd  ]",
    "[ dbuf.h: 8ae3e9fd1aae24f4dbe02f5966404d21  ]",
    "[ destruct_event.h: 9d2cf6688987e8501f3931c6d2836f2c  ]",
    "[ fileio.h: 6d47e699433857b635f384ff92e5ab95  ]",
    "[ gline.h: 30ab28dd5194304c10dcdebb0bc9706f  ]",
    "[ handlers.h: 3a9bdd74df88bda4c41ee46ab805fd9f  ]",
    "[ hash.h: b0fed26413fc54c506a0dfb993616578  ]",
    "[ ircd.h: bada4cefa27975319b88fa3daabc96ed  ]",
    "[ ircd_alloc.h: 94f483ca0b86fb4a04735b9e36404ed8  ]",
    "[ ircd_chattr.h: 09ca67c9470c42af2afb21bad4424c83  ]",
    "[ ircd_crypt.h: a3b1c8cb25658eb6d3399142b8b68f41  ]",
    "[ ircd_crypt_native.h: f45cffb8057501ec13411b7938811fc5  ]",
    "[ ircd_crypt_plain.h: 8869c2a51e1fbb01210fa1afdb12432f  ]",
    "[ ircd_crypt_smd5.h: c843f3b6fcfe255d1c939aa1bd7a45de  ]",
    "[ ircd_defs.h: ca3dcb299def4b4ac854d93ccfd52621  ]",
    "[ ircd_events.h: a9c80831caadf6c03b4bb61303a6ffd4  ]",
    "[ ircd_features.h: 8637d406b79566039b11b7abcbb058b6  ]",
    "[ ircd_handler.h: 00e029c07483e8415b527e912841b5d8  ]",
    "[ ircd_lexer.h: 4aeba6721b63770273d2781c0d711904  ]",
    "[ ircd_log.h: f451b7d89e0e4d9f4d5b33f7eb41216a  ]",
    "[ ircd_md5.h: 9a03f7967ef865a833829556ce2b1531  ]",
    "[ ircd_netconf.h: 0cf49dca6929dbab9175ad1fb696977b  ]",
    "[ ircd_osdep.h: 1c8c22837fd5ab398c1d04a56f4dcbed  ]",
    "[ ircd_relay.h: b7e64c832c59b66c86470bbe7e70735c  ]",
    "[ ircd_reply.h: c0367aa1b9220008983b355359aefe12  ]",
    "[ ircd_reslib.h: 58bbd1174a39c1db382c9bdad4618b43  ]",
    "[ ircd_sha1.h: ad6e3c206d748f2d1b028d4bc0474881  ]",
    "[ ircd_signal.h: 55ee2f2cae14ed7fa661902ed947ab41  ]",
    "[ ircd_snprintf.h: 817e39f18424c877071d5fad2547807e  ]",
    "[ ircd_string.h: 1d1885e8354aeb9af7d12d7a76e12308  ]",
    "[ ircd_tls.h: fe9fe452a9dafa728a4cb588dc7de7f5  ]",
    "[ jupe.h: f38cec5506abd1ee3b152ad2763a9f29  ]",
    "[ list.h: f90c11fb4164465bea968dc46b4d988a  ]",
    "[ listener.h: b1d0bb067674ab1994fcb4eae57f7b13  ]",
    "[ match.h: 4ef258d0e0e24d25a8e45e3eef67405c  ]",
    "[ memdebug.h: e8da93cecec5a091e160dc2321d1f043  ]",
    "[ motd.h: a32cf315fc495555e90fe2ee29e6f7e3  ]",
    "[ msg.h: 2b7e7ce4188d27dfb497c79d4ce85537  ]",
    "[ msg_tag.h: a134225912a177790e58bedfa1b3b976  ]",
    "[ msgq.h: 0f6168b7a531eb47c4562a4ec92ecef1  ]",
    "[ numeric.h: dc5f30197d97fc15b359d15b88246bdf  ]",
    "[ numnicks.h: dc35cb9ba7729bf317d8590ca84275d9  ]",
    "[ opercmds.h: 94708db9f4ebcaa3c6b85532b0759120  ]",
    "[ packet.h: 85d28b3e40040545703c563b7e186c89  ]",
    "[ parse.h: 9799614e45b3e2a3adbc66621b575f44  ]",
    "[ patchlevel.h: 294438b46c8c79187e161c26416f6a26  ]",
    "[ patchlist.h: 136c925b347c1343c272ff62b8c7b3c3  ]",
    "[ querycmds.h: e15cffb6fd80e497e6413d9edd2088ab  ]",
    "[ random.h: 8fd8dba1ef5aacc4c2e39e95917526a9  ]",
    "[ res.h: f2dea83771d7a0120304269be3528d8d  ]",
    "[ s_auth.h: 4db85ddbff0ade367f56df015d72427d  ]",
    "[ s_bsd.h: 828896d2e25954abd5feac6ea637d726  ]",
    "[ s_conf.h: b0cdbde2334252020b53974eee459ba8  ]",
    "[ s_debug.h: c1205f8ba2b560dcc4343eadc335819f  ]",
    "[ s_misc.h: 48d9b2ec8dbbbbdcc08a6cfefb4ffb7f  ]",
    "[ s_numeric.h: b1c7f167b8fccf22e53929787c3c2149  ]",
    "[ s_serv.h: 346d8cd008cccba6936c68daa6daa8f3  ]",
    "[ s_stats.h: 1a1f266e0a0ef6d81f63d67f6ea67fd0  ]",
    "[ s_user.h: d33fd2792d6118bfb3023fe5e2919045  ]",
    "[ sasl.h: cae26a55afeb15ef6cba08aebdb97ad9  ]",
    "[ send.h: 1b6ff57752ba28c80d61d02166eb8e46  ]",
    "[ sline.h: 33b6571cd49c78458191a8ea8d15385d  ]",
    "[ struct.h: b946c365a83b68a53a9b1a291e8fd735  ]",
    "[ supported.h: 80f83122d1fb3f37e444ea969df1b29f  ]",
    "[ sys.h: 29de2f8c88c76bd020f993646cd92a04  ]",
    "[ umkpasswd.h: ac91b053fd7bf3b895014e5f5674ba6d  ]",
    "[ uping.h: 60768d27900372d7a2a294180a1a2539  ]",
    "[ userload.h: 0b7facaf2d3cd66b50e922d753f2b24e  ]",
    "[ version.h: 84b78c08ba3a4a161b69b0c8683b341b  ]",
    "[ websocket.h: 5766d339e8cf4b96d35504d12babc101  ]",
    "[ whocmds.h: f661e91e212a1e9a70f70058bf548159  ]",
    "[ whowas.h: cb3efcbeb301c242c9ee339ee3c1f3f8  ]",
    0,
};
