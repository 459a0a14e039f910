// one literal operator per width 1..1100, and the wide ones crypto3-algebra uses
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(16)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(17)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(18)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(19)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(20)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(21)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(22)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(23)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(24)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(25)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(26)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(27)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(28)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(29)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(30)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(31)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(32)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(33)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(34)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(35)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(36)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(37)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(38)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(39)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(40)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(41)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(42)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(43)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(44)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(45)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(46)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(47)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(48)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(49)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(50)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(51)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(52)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(53)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(54)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(55)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(56)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(57)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(58)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(59)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(60)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(61)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(62)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(63)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(64)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(65)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(66)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(67)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(68)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(69)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(70)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(71)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(72)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(73)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(74)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(75)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(76)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(77)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(78)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(79)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(80)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(81)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(82)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(83)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(84)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(85)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(86)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(87)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(88)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(89)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(90)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(91)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(92)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(93)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(94)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(95)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(96)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(97)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(98)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(99)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(100)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(101)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(102)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(103)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(104)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(105)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(106)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(107)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(108)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(109)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(110)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(111)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(112)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(113)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(114)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(115)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(116)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(117)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(118)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(119)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(120)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(121)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(122)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(123)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(124)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(125)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(126)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(127)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(128)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(129)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(130)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(131)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(132)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(133)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(134)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(135)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(136)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(137)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(138)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(139)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(140)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(141)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(142)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(143)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(144)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(145)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(146)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(147)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(148)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(149)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(150)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(151)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(152)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(153)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(154)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(155)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(156)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(157)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(158)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(159)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(160)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(161)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(162)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(163)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(164)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(165)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(166)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(167)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(168)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(169)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(170)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(171)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(172)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(173)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(174)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(175)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(176)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(177)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(178)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(179)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(180)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(181)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(182)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(183)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(184)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(185)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(186)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(187)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(188)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(189)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(190)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(191)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(192)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(193)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(194)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(195)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(196)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(197)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(198)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(199)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(200)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(201)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(202)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(203)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(204)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(205)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(206)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(207)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(208)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(209)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(210)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(211)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(212)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(213)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(214)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(215)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(216)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(217)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(218)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(219)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(220)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(221)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(222)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(223)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(224)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(225)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(226)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(227)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(228)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(229)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(230)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(231)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(232)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(233)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(234)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(235)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(236)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(237)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(238)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(239)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(240)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(241)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(242)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(243)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(244)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(245)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(246)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(247)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(248)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(249)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(250)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(251)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(252)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(253)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(254)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(255)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(256)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(257)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(258)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(259)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(260)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(261)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(262)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(263)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(264)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(265)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(266)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(267)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(268)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(269)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(270)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(271)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(272)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(273)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(274)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(275)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(276)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(277)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(278)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(279)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(280)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(281)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(282)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(283)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(284)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(285)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(286)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(287)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(288)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(289)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(290)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(291)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(292)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(293)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(294)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(295)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(296)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(297)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(298)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(299)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(300)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(301)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(302)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(303)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(304)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(305)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(306)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(307)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(308)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(309)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(310)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(311)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(312)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(313)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(314)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(315)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(316)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(317)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(318)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(319)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(320)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(321)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(322)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(323)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(324)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(325)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(326)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(327)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(328)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(329)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(330)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(331)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(332)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(333)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(334)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(335)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(336)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(337)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(338)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(339)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(340)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(341)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(342)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(343)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(344)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(345)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(346)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(347)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(348)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(349)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(350)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(351)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(352)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(353)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(354)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(355)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(356)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(357)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(358)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(359)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(360)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(361)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(362)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(363)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(364)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(365)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(366)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(367)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(368)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(369)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(370)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(371)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(372)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(373)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(374)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(375)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(376)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(377)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(378)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(379)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(380)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(381)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(382)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(383)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(384)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(385)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(386)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(387)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(388)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(389)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(390)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(391)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(392)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(393)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(394)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(395)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(396)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(397)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(398)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(399)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(400)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(401)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(402)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(403)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(404)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(405)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(406)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(407)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(408)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(409)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(410)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(411)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(412)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(413)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(414)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(415)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(416)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(417)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(418)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(419)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(420)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(421)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(422)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(423)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(424)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(425)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(426)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(427)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(428)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(429)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(430)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(431)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(432)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(433)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(434)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(435)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(436)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(437)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(438)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(439)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(440)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(441)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(442)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(443)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(444)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(445)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(446)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(447)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(448)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(449)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(450)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(451)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(452)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(453)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(454)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(455)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(456)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(457)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(458)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(459)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(460)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(461)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(462)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(463)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(464)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(465)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(466)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(467)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(468)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(469)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(470)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(471)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(472)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(473)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(474)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(475)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(476)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(477)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(478)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(479)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(480)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(481)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(482)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(483)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(484)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(485)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(486)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(487)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(488)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(489)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(490)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(491)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(492)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(493)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(494)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(495)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(496)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(497)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(498)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(499)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(500)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(501)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(502)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(503)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(504)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(505)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(506)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(507)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(508)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(509)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(510)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(511)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(512)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(513)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(514)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(515)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(516)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(517)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(518)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(519)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(520)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(521)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(522)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(523)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(524)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(525)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(526)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(527)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(528)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(529)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(530)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(531)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(532)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(533)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(534)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(535)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(536)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(537)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(538)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(539)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(540)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(541)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(542)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(543)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(544)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(545)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(546)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(547)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(548)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(549)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(550)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(551)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(552)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(553)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(554)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(555)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(556)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(557)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(558)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(559)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(560)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(561)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(562)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(563)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(564)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(565)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(566)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(567)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(568)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(569)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(570)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(571)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(572)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(573)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(574)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(575)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(576)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(577)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(578)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(579)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(580)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(581)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(582)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(583)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(584)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(585)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(586)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(587)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(588)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(589)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(590)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(591)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(592)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(593)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(594)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(595)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(596)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(597)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(598)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(599)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(600)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(601)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(602)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(603)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(604)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(605)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(606)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(607)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(608)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(609)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(610)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(611)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(612)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(613)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(614)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(615)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(616)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(617)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(618)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(619)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(620)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(621)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(622)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(623)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(624)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(625)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(626)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(627)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(628)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(629)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(630)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(631)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(632)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(633)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(634)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(635)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(636)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(637)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(638)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(639)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(640)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(641)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(642)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(643)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(644)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(645)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(646)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(647)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(648)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(649)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(650)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(651)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(652)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(653)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(654)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(655)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(656)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(657)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(658)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(659)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(660)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(661)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(662)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(663)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(664)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(665)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(666)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(667)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(668)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(669)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(670)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(671)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(672)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(673)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(674)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(675)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(676)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(677)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(678)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(679)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(680)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(681)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(682)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(683)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(684)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(685)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(686)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(687)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(688)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(689)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(690)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(691)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(692)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(693)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(694)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(695)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(696)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(697)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(698)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(699)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(700)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(701)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(702)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(703)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(704)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(705)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(706)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(707)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(708)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(709)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(710)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(711)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(712)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(713)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(714)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(715)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(716)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(717)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(718)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(719)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(720)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(721)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(722)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(723)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(724)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(725)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(726)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(727)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(728)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(729)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(730)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(731)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(732)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(733)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(734)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(735)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(736)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(737)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(738)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(739)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(740)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(741)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(742)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(743)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(744)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(745)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(746)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(747)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(748)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(749)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(750)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(751)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(752)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(753)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(754)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(755)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(756)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(757)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(758)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(759)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(760)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(761)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(762)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(763)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(764)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(765)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(766)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(767)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(768)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(769)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(770)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(771)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(772)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(773)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(774)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(775)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(776)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(777)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(778)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(779)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(780)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(781)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(782)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(783)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(784)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(785)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(786)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(787)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(788)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(789)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(790)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(791)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(792)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(793)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(794)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(795)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(796)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(797)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(798)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(799)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(800)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(801)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(802)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(803)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(804)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(805)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(806)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(807)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(808)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(809)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(810)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(811)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(812)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(813)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(814)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(815)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(816)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(817)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(818)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(819)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(820)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(821)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(822)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(823)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(824)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(825)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(826)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(827)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(828)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(829)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(830)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(831)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(832)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(833)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(834)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(835)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(836)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(837)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(838)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(839)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(840)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(841)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(842)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(843)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(844)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(845)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(846)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(847)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(848)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(849)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(850)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(851)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(852)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(853)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(854)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(855)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(856)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(857)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(858)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(859)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(860)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(861)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(862)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(863)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(864)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(865)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(866)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(867)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(868)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(869)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(870)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(871)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(872)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(873)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(874)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(875)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(876)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(877)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(878)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(879)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(880)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(881)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(882)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(883)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(884)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(885)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(886)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(887)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(888)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(889)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(890)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(891)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(892)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(893)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(894)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(895)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(896)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(897)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(898)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(899)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(900)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(901)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(902)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(903)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(904)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(905)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(906)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(907)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(908)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(909)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(910)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(911)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(912)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(913)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(914)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(915)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(916)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(917)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(918)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(919)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(920)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(921)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(922)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(923)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(924)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(925)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(926)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(927)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(928)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(929)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(930)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(931)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(932)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(933)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(934)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(935)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(936)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(937)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(938)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(939)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(940)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(941)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(942)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(943)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(944)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(945)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(946)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(947)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(948)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(949)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(950)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(951)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(952)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(953)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(954)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(955)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(956)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(957)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(958)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(959)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(960)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(961)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(962)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(963)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(964)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(965)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(966)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(967)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(968)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(969)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(970)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(971)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(972)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(973)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(974)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(975)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(976)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(977)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(978)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(979)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(980)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(981)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(982)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(983)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(984)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(985)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(986)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(987)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(988)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(989)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(990)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(991)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(992)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(993)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(994)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(995)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(996)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(997)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(998)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(999)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1000)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1001)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1002)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1003)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1004)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1005)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1006)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1007)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1008)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1009)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1010)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1011)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1012)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1013)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1014)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1015)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1016)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1017)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1018)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1019)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1020)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1021)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1022)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1023)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1024)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1025)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1026)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1027)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1028)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1029)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1030)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1031)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1032)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1033)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1034)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1035)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1036)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1037)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1038)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1039)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1040)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1041)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1042)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1043)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1044)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1045)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1046)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1047)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1048)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1049)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1050)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1051)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1052)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1053)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1054)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1055)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1056)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1057)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1058)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1059)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1060)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1061)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1062)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1063)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1064)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1065)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1066)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1067)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1068)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1069)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1070)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1071)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1072)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1073)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1074)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1075)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1076)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1077)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1078)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1079)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1080)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1081)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1082)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1083)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1084)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1085)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1086)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1087)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1088)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1089)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1090)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1091)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1092)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1093)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1094)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1095)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1096)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1097)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1098)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1099)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1100)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1490)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1536)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(1790)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(2048)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(2790)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(3072)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(3328)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(4096)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(4269)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(4314)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(6144)
BOOST_MP_DEFINE_SIZED_CPP_INT_MODULAR_LITERAL(8192)
