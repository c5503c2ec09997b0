"""Usage names and values (HID Usage Tables), page by page."""
PAGES = {
    0x01: ("desktop", """
        1=Pointer 2=Mouse 4=Joystick 5=Gamepad 6=Keyboard 7=Keypad 8=MultiAxisCtrl 9=TabletPCSystem
        c=WirelessRadioControls d=PortableDeviceControl 30=X 31=Y 32=Z 33=Rx 34=Ry 35=Rz 36=Slider 37=Dial
        38=Wheel 39=HatSwitch 3a=CountedBuffer 3b=ByteCount 3c=MotionWakeup 3d=Start 3e=Select 40=Vx 41=Vy
        42=Vz 43=Vbrx 44=Vbry 45=Vbrz 46=Vno 47=FeatureNotification 48=ResolutionMultiplier 80=SysControl
        81=SysPowerDown 82=SysSleep 83=SysWakeUp 84=SysContextMenu 85=SysMainMenu 86=SysAppMenu 87=SysMenuHelp
        88=SysMenuExit 89=SysMenuSelect 8a=SysMenuRight 8b=SysMenuLeft 8c=SysMenuUp 8d=SysMenuDown
        8e=SysColdRestart 8f=SysWarmRestart 90=DPadUp 91=DPadDown 92=DPadRight 93=DPadLeft a0=SysDock
        a1=SysUndock a2=SysSetup a3=SysBreak a4=SysDbgrBreak a5=AppBreak a6=AppDbgrBreak a7=SysSpeakerMute
        a8=SysHibernate b0=SysDsplInvert b1=SysDsplInternal b2=SysDsplExternal b3=SysDsplBoth b4=SysDsplDual
        b5=SysDsplToggleIntExt b6=SysDsplSwap12 b7=SysDsplLcdAutoscale c6=WirelessRadioButton
        c7=WirelessRadioLed c8=WirelessRadioSliderSwitch c9=SystemDisplayRotationLockButton
        ca=SystemDisplayRotationLockSliderSwitch cb=ControlEnable"""),
    0x02: ("simulation", """
        1=FlightSimulationDevice 2=AutomobileSimulationDevice 3=TankSimulationDevice
        4=SpaceshipSimulationDevice 5=SubmarineSimulationDevice 6=SailingSimulationDevice
        7=MotorcycleSimulationDevice 8=SportsSimulationDevice 9=AirplaneSimulationDevice
        a=HelicopterSimulationDevice b=MagicCarpetSimulationDevice c=BicycleSimulationDevice
        20=FlightControlStick 21=FlightStick 22=CyclicControl 23=CyclicTrim 24=FlightYoke 25=TrackControl
        b0=Aileron b1=AileronTrim b2=AntiTorqueControl b3=AutopilotEnable b4=ChaffRelease b5=CollectiveControl
        b6=DiveBrake b7=ElectronicCountermeasures b8=Elevator b9=ElevatorTrim ba=Rudder bb=Throttle
        bc=FlightCommunications bd=FlareRelease be=LandingGear bf=ToeBrake c0=Trigger c1=WeaponsArm
        c2=WeaponsSelect c3=WingFlaps c4=Accelerator c5=Brake c6=Clutch c7=Shifter c8=Steering
        c9=TurretDirection ca=BarrelElevation cb=DivePlane cc=Ballast cd=BicycleCrank ce=HandleBars
        cf=FrontBrake d0=RearBrake"""),
    0x03: ("vr", """
        1=Belt 2=BodySuit 3=Flexor 4=Glove 5=HeadTracker 6=HeadMountedDisplay 7=HandTracker 8=Oculometer
        9=Vest a=AnimatronicDevice 20=StereoEnable 21=DisplayEnable"""),
    0x05: ("game", """
        1=ThreeDGameController 2=PinballDevice 3=GunDevice 20=PointofView 21=TurnRightLeft
        22=PitchForwardBackward 23=RollRightLeft 24=MoveRightLeft 25=MoveForwardBackward 26=MoveUpDown
        27=LeanRightLeft 28=LeanForwardBackward 29=HeightofPOV 2a=Flipper 2b=SecondaryFlipper 2c=Bump
        2d=NewGame 2e=ShootBall 2f=Player 30=GunBolt 31=GunClip 32=GunSelector 33=GunSingleShot 34=GunBurst
        35=GunAutomatic 36=GunSafety 37=GamepadFireJump 39=GamepadTrigger"""),
    0x06: ("device", """
        20=BatteryStrength 21=WirelessChannel 22=WirelessID 23=DiscoverWirelessControl
        24=SecurityCodeCharacterEntered 25=SecurityCodeCharacterErased 26=SecurityCodeCleared"""),
    0x07: ("keyboard", """
        0=NoEvent 1=Rollover 2=Postfail 3=Undefined 4=A 5=B 6=C 7=D 8=E 9=F a=G b=H c=I d=J e=K f=L 10=M 11=N
        12=O 13=P 14=Q 15=R 16=S 17=T 18=U 19=V 1a=W 1b=X 1c=Y 1d=Z 1e=OneAndExclam 1f=TwoAndAt
        20=ThreeAndNumber 21=FourAndDollar 22=FiveAndPercent 23=SixAndCaret 24=SevenAndAmp 25=EightAndStar
        26=NineAndLeftParen 27=ZeroAndRightParen 28=ReturnEnter 29=Escape 2a=DeleteBackspace 2b=Tab
        2c=Spacebar 2d=MinusAndUnderscore 2e=EqualAndPlus 2f=LeftBoxAndLeftCurly 30=RightBoxAndRightCurly
        31=BackslashAndPipe 32=NonUsNumberAndTilde 33=SemicolonAndColon 34=QuotAndDoubleQuot
        35=GraveAccentAndTilde 36=CommaAndLt 37=PeriodAndGt 38=SlashAndQuestion 39=CapsLock 3a=F1 3b=F2 3c=F3
        3d=F4 3e=F5 3f=F6 40=F7 41=F8 42=F9 43=F10 44=F11 45=F12 46=PrintScreen 47=ScrollLock 48=Pause
        49=Insert 4a=Home 4b=Pageup 4c=DeleteForward 4d=End 4e=Pagedown 4f=Rightarrow 50=Leftarrow
        51=Downarrow 52=Uparrow 53=KeypadNumLockAndClear 54=KeypadSlash 55=KeypadStar 56=KeypadMinus
        57=KeypadPlus 58=KeypadEnter 59=Keypad1AndEnd 5a=Keypad2AndDownArrow 5b=Keypad3AndPagedn
        5c=Keypad4AndLeftArrow 5d=Keypad5 5e=Keypad6AndRightArrow 5f=Keypad7AndHome 60=Keypad8AndUpArrow
        61=Keypad9AndPageup 62=Keypad0AndInsert 63=KeypadPointAndDelete 64=NonUsBackslashAndPipe
        65=Application 66=Power 67=KeypadEqual 68=F13 69=F14 6a=F15 6b=F16 6c=F17 6d=F18 6e=F19 6f=F20 70=F21
        71=F22 72=F23 73=F24 74=Execute 75=Help 76=Menu 77=Select 78=Stop 79=Again 7a=Undo 7b=Cut 7c=Copy
        7d=Paste 7e=Find 7f=Mute 80=VolumeUp 81=VolumeDown 82=LockingCapsLock 83=LockingNumLock
        84=LockingScrollLock 85=KeypadComma 86=KeypadEqualAs400 87=International1 88=International2
        89=International3 8a=International4 8b=International5 8c=International6 8d=International7
        8e=International8 8f=International9 90=Lang1 91=Lang2 92=Lang3 93=Lang4 94=Lang5 95=Lang6 96=Lang7
        97=Lang8 98=Lang9 99=AlternateErase 9a=SysreqAttn 9b=Cancel 9c=Clear 9d=Prior 9e=Return 9f=Separator
        a0=Out a1=Oper a2=ClearAgain a3=CrselProps a4=Exsel b0=Keypad00 b1=Keypad000 b2=ThousandsSeparator
        b3=DecimalSeparator b4=CurrencyUnit b5=CurrencySubMinusUnit b6=KeypadLeftParen b7=KeypadRightParen
        b8=KeypadLeftCurly b9=KeypadRightCurly ba=KeypadTab bb=KeypadBackspace bc=KeypadA bd=KeypadB
        be=KeypadC bf=KeypadD c0=KeypadE c1=KeypadF c2=KeypadXor c3=KeypadCaret c4=KeypadPercent c5=KeypadLt
        c6=KeypadGt c7=KeypadAmp c8=KeypadAmpAmp c9=KeypadPipe ca=KeypadPipePipe cb=KeypadColon
        cc=KeypadNumber cd=KeypadSpace ce=KeypadAt cf=KeypadExclam d0=KeypadMemoryStore d1=KeypadMemoryRecall
        d2=KeypadMemoryClear d3=KeypadMemoryAdd d4=KeypadMemorySubtract d5=KeypadMemoryMultiply
        d6=KeypadMemoryDivide d7=KeypadPlusMinus d8=KeypadClear d9=KeypadClearEntry da=KeypadBinary
        db=KeypadOctal dc=KeypadDecimal dd=KeypadHexadecimal e0=LeftControl e1=LeftShift e2=LeftAlt e3=LeftGui
        e4=RightControl e5=RightShift e6=RightAlt e7=RightGui"""),
    0x08: ("led", """
        1=NumLock 2=CapsLock 3=ScrollLock 4=Compose 5=Kana 6=Power 7=Shift 8=DoNotDisturb 9=Mute a=ToneEnable
        b=HighCutFilter c=LowCutFilter d=EqualizerEnable e=SoundFieldOn f=SurroundOn 10=Repeat 11=Stereo
        12=SamplingRateDetect 13=Spinning 14=CAV 15=CLV 16=RecordingFormatDetect 17=OffHook 18=Ring
        19=MessageWaiting 1a=DataMode 1b=BatteryOperation 1c=BatteryOK 1d=BatteryLow 1e=Speaker 1f=HeadSet
        20=Hold 21=Microphone 22=Coverage 23=NightMode 24=SendCalls 25=CallPickup 26=Conference 27=StandBy
        28=CameraOn 29=CameraOff 2a=OnLine 2b=OffLine 2c=Busy 2d=Ready 2e=PaperOut 2f=PaperJam 30=Remote
        31=Forward 32=Reverse 33=Stop 34=Rewind 35=FastForward 36=Play 37=Pause 38=Record 39=Error
        3a=UsageSelectedIndicator 3b=UsageInUseIndicator 3c=UsageMultiModeIndicator 3d=IndicatorOn
        3e=IndicatorFlash 3f=IndicatorSlowBlink 40=IndicatorFastBlink 41=IndicatorOff 42=FlashOnTime
        43=SlowBlinkOnTime 44=SlowBlinkOffTime 45=FastBlinkOnTime 46=FastBlinkOffTime 47=UsageIndicatorColor
        48=IndicatorRed 4a=IndicatorAmber 4c=SystemSuspend 4d=ExternalPowerConnected 4e=PlayerIndicator
        4f=Player1 50=Player2 51=Player3 52=Player4 53=Player5 54=Player6 55=Player7 56=Player8"""),
    0x0b: ("telephony", """
        1=Phone 2=AnsweringMachine 3=MessageControls 4=Handset 5=Headset 6=TelephonyKeyPad
        7=ProgrammableButton 20=HookSwitch 21=Flash 22=Feature 23=Hold 24=Redial 25=Transfer 26=Drop 27=Park
        28=ForwardCalls 29=AlternateFunction 2a=Line 2b=SpeakerPhone 2c=Conference 2d=RingEnable 2e=RingSelect
        2f=PhoneMute 30=CallerID 50=SpeedDial 51=StoreNumber 52=RecallNumber 53=PhoneDirectory 70=VoiceMail
        71=ScreenCalls 72=DoNotDisturb 73=Message 74=AnswerOnOff 90=InsideDialTone 91=OutsideDialTone
        92=InsideRingTone 93=OutsideRingTone 94=PriorityRingTone 95=InsideRingback 96=PriorityRingback
        97=LineBusyTone 98=ReorderTone 99=CallWaitingTone 9a=ConfirmationTone1 9b=ConfirmationTone2
        9c=TonesOff 9d=OutsideRingback 9e=Ringer b0=PhoneKey0 b1=PhoneKey1 b2=PhoneKey2 b3=PhoneKey3
        b4=PhoneKey4 b5=PhoneKey5 b6=PhoneKey6 b7=PhoneKey7 b8=PhoneKey8 b9=PhoneKey9 ba=PhoneKeyStar
        bb=PhoneKeyPound bc=PhoneKeyA bd=PhoneKeyB be=PhoneKeyC bf=PhoneKeyD"""),
    0x0c: ("consumer", """
        1=ConsumerControl 2=NumericKeyPad 3=ProgrammableButtons 4=Microphone 5=Headphone 6=GraphicEqualizer
        20=Plus10 21=Plus100 22=AmPm 30=Power 31=Reset 32=Sleep 33=SleepAfter 34=SleepMode 35=Illumination
        36=FunctionButtons 40=Menu 41=MenuPick 42=MenuUp 43=MenuDown 44=MenuLeft 45=MenuRight 46=MenuEscape
        47=MenuValueIncrease 48=MenuValueDecrease 60=DataOnScreen 61=ClosedCaption 62=ClosedCaptionSelect
        63=VcrTv 64=BroadcastMode 65=Snapshot 66=Still 67=PipToggle 68=PipSwap 69=Red 6a=Green 6b=Blue
        6c=Yellow 6d=Aspect 6e=ThreeDMode 6f=DisplayBrightnessIncrement 70=DisplayBrightnessDecrement
        71=DisplayBrightness 72=DisplayBacklightToggle 73=DisplaySetBrightnesstoMinimum
        74=DisplaySetBrightnesstoMaximum 75=DisplaySetAutoBrightness 80=Selection 81=AssignSelection
        82=ModeStep 83=RecallLast 84=EnterChannel 85=OrderMovie 86=Channel 87=MediaSelection
        88=MediaSelectComputer 89=MediaSelectTv 8a=MediaSelectWww 8b=MediaSelectDvd 8c=MediaSelectTelephone
        8d=MediaSelectProgramGuide 8e=MediaSelectVideoPhone 8f=MediaSelectGames 90=MediaSelectMessages
        91=MediaSelectCd 92=MediaSelectVcr 93=MediaSelectTuner 94=Quit 95=Help 96=MediaSelectTape
        97=MediaSelectCable 98=MediaSelectSatellite 99=MediaSelectSecurity 9a=MediaSelectHome
        9b=MediaSelectCall 9c=ChannelIncrement 9d=ChannelDecrement 9e=MediaSelectSap a0=VcrPlus a1=Once
        a2=Daily a3=Weekly a4=Monthly b0=Play b1=Pause b2=Record b3=FastForward b4=Rewind b5=ScanNextTrack
        b6=ScanPreviousTrack b7=Stop b8=Eject b9=RandomPlay ba=SelectDisc bb=EnterDisc bc=Repeat bd=Tracking
        be=TrackNormal bf=SlowTracking c0=FrameForward c1=FrameBack c2=Mark c3=ClearMark c4=RepeatFromMark
        c5=ReturnToMark c6=SearchMarkForward c7=SearchMarkBackwards c8=CounterReset c9=ShowCounter
        ca=TrackingIncrement cb=TrackingDecrement cc=StopEject cd=PlayPause ce=PlaySkip cf=VoiceCommand
        e0=Volume e1=Balance e2=Mute e3=Bass e4=Treble e5=BassBoost e6=SurroundMode e7=Loudness e8=Mpx
        e9=VolumeIncrement ea=VolumeDecrement f0=SpeedSelect f1=PlaybackSpeed f2=StandardPlay f3=LongPlay
        f4=ExtendedPlay f5=Slow 100=FanEnable 101=FanSpeed 102=LightEnable 103=LightIlluminationLevel
        104=ClimateControlEnable 105=RoomTemperature 106=SecurityEnable 107=FireAlarm 108=PoliceAlarm
        109=Proximity 10a=Motion 10b=DuressAlarm 10c=HoldupAlarm 10d=MedicalAlarm 150=BalanceRight
        151=BalanceLeft 152=BassIncrement 153=BassDecrement 154=TrebleIncrement 155=TrebleDecrement
        160=SpeakerSystem 161=ChannelLeft 162=ChannelRight 163=ChannelCenter 164=ChannelFront
        165=ChannelCenterFront 166=ChannelSide 167=ChannelSurround 168=ChannelLowFrequencyEnhancement
        169=ChannelTop 16a=ChannelUnknown 170=SubChannel 171=SubChannelIncrement 172=SubChannelDecrement
        173=AlternateAudioIncrement 174=AlternateAudioDecrement 180=ApplicationLaunchButtons
        181=AlLaunchButtonConfigurationTool 182=AlProgrammableButtonConfiguration
        183=AlConsumerControlConfiguration 184=AlWordProcessor 185=AlTextEditor 186=AlSpreadsheet
        187=AlGraphicsEditor 188=AlPresentationApp 189=AlDatabaseApp 18a=AlEmailReader 18b=AlNewsreader
        18c=AlVoicemail 18d=AlContactsAddressBook 18e=AlCalendarSchedule 18f=AlTaskProjectManager
        190=AlLogJournalTimecard 191=AlCheckbookFinance 192=AlCalculator 193=AlAVCapturePlayback
        194=AlLocalMachineBrowser 195=AlLanWanBrowser 196=AlInternetBrowser 197=AlRemoteNetworkingIspConnect
        198=AlNetworkConference 199=AlNetworkChat 19a=AlTelephonyDialer 19b=AlLogon 19c=AlLogoff
        19d=AlLogonLogoff 19e=AlTerminalLockScreensaver 19f=AlControlPanel 1a0=AlCommandLineProcessorRun
        1a1=AlProcessTaskManager 1a2=AlSelectTaskApplication 1a3=AlNextTaskApplication
        1a4=AlPreviousTaskApplication 1a5=AlPreemptiveHaltTaskApplication 1a6=AlIntegratedHelpCenter
        1a7=AlDocuments 1a8=AlThesaurus 1a9=AlDictionary 1aa=AlDesktop 1ab=AlSpellCheck 1ac=AlGrammarCheck
        1ad=AlWirelessStatus 1ae=AlKeyboardLayout 1af=AlVirusProtection 1b0=AlEncryption 1b1=AlScreenSaver
        1b2=AlAlarms 1b3=AlClock 1b4=AlFileBrowser 1b5=AlPowerStatus 1b6=AlImageBrowser 1b7=AlAudioBrowser
        1b8=AlMovieBrowser 1b9=AlDigitalRightsManager 1ba=AlDigitalWallet 1bc=AlInstantMessaging
        1bd=AlOemFeaturesTipsTutorialBrowser 1be=AlOemHelp 1bf=AlOnlineCommunity
        1c0=AlEntertainmentContentBrowser 1c1=AlOnlineShoppingBrowser 1c2=AlSmartcardInformationHelp
        1c3=AlMarketMonitorFinanceBrowser 1c4=AlCustomizedCorporateNewsBrowser 1c5=AlOnlineActivityBrowser
        1c6=AlResearchSearchBrowser 1c7=AlAudioPlayer 200=GenericGuiApplicationControls 201=AcNew 202=AcOpen
        203=AcClose 204=AcExit 205=AcMaximize 206=AcMinimize 207=AcSave 208=AcPrint 209=AcProperties
        21a=AcUndo 21b=AcCopy 21c=AcCut 21d=AcPaste 21e=AcSelectAll 21f=AcFind 220=AcFindAndReplace
        221=AcSearch 222=AcGoTo 223=AcHome 224=AcBack 225=AcForward 226=AcStop 227=AcRefresh
        228=AcPreviousLink 229=AcNextLink 22a=AcBookmarks 22b=AcHistory 22c=AcSubscriptions 22d=AcZoomIn
        22e=AcZoomOut 22f=AcZoom 230=AcFullScreenView 231=AcNormalView 232=AcViewToggle 233=AcScrollUp
        234=AcScrollDown 235=AcScroll 236=AcPanLeft 237=AcPanRight 238=AcPan 239=AcNewWindow
        23a=AcTileHorizontally 23b=AcTileVertically 23c=AcFormat 23d=AcEdit 23e=AcBold 23f=AcItalics
        240=AcUnderline 241=AcStrikethrough 242=AcSubscript 243=AcSuperscript 244=AcAllCaps 245=AcRotate
        246=AcResize 247=AcFlipHorizontal 248=AcFlipVertical 249=AcMirrorHorizontal 24a=AcMirrorVertical
        24b=AcFontSelect 24c=AcFontColor 24d=AcFontSize 24e=AcJustifyLeft 24f=AcJustifyCenterH
        250=AcJustifyRight 251=AcJustifyBlockH 252=AcJustifyTop 253=AcJustifyCenterV 254=AcJustifyBottom
        255=AcJustifyBlockV 256=AcIndentDecrease 257=AcIndentIncrease 258=AcNumberedList
        259=AcRestartNumbering 25a=AcBulletedList 25b=AcPromote 25c=AcDemote 25d=AcYes 25e=AcNo 25f=AcCancel
        260=AcCatalog 261=AcBuyCheckout 262=AcAddToCart 263=AcExpand 264=AcExpandAll 265=AcCollapse
        266=AcCollapseAll 267=AcPrintPreview 268=AcPasteSpecial 269=AcInsertMode 26a=AcDelete 26b=AcLock
        26c=AcUnlock 26d=AcProtect 26e=AcUnprotect 26f=AcAttachComment 270=AcDeleteComment 271=AcViewComment
        272=AcSelectWord 273=AcSelectSentence 274=AcSelectParagraph 275=AcSelectColumn 276=AcSelectRow
        277=AcSelectTable 278=AcSelectObject 279=AcRedoRepeat 27a=AcSort 27b=AcSortAscending
        27c=AcSortDescending 27d=AcFilter 27e=AcSetClock 27f=AcViewClock 280=AcSelectTimeZone
        281=AcEditTimeZones 282=AcSetAlarm 283=AcClearAlarm 284=AcSnoozeAlarm 285=AcResetAlarm
        286=AcSynchronize 287=AcSendReceive 288=AcSendTo 289=AcReply 28a=AcReplyAll 28b=AcForwardMsg
        28c=AcSend 28d=AcAttachFile 28e=AcUpload 28f=AcDownload 290=AcSetBorders 291=AcInsertRow
        292=AcInsertColumn 293=AcInsertFile 294=AcInsertPicture 295=AcInsertObject 296=AcInsertSymbol
        297=AcSaveAndClose 298=AcRename 299=AcMerge 29a=AcSplit 29b=AcDisributeHorizontally
        29c=AcDistributeVertically 2c0=ExtendedKeyboardAttributesCollection 2c1=KeyboardFormFactor
        2c2=KeyboardKeyType 2c3=KeyboardPhysicalLayout 2c4=VendorSpecificKeyboardPhysicalLayout
        2c5=KeyboardIETFLanguageTagIndex 2c6=ImplementedKeyboardInputAssistControls
        2c7=KeyboardInputAssistPrevious 2c8=KeyboardInputAssistNext 2c9=KeyboardInputAssistPreviousGroup
        2ca=KeyboardInputAssistNextGroup 2cb=KeyboardInputAssistAccept 2cc=KeyboardInputAssistCancel"""),
    0x0d: ("digitizers", """
        1=Digitizer 2=Pen 3=LightPen 4=TouchScreen 5=TouchPad 6=WhiteBoard 7=CoordinateMeasuringMachine
        8=ThreeDDigitizer 9=StereoPlotter a=ArticulatedArm b=Armature c=MultiplePointDigitizer d=FreeSpaceWand
        e=Deviceconfiguration 20=Stylus 21=Puck 22=Finger 23=Devicesettings 30=TipPressure 31=BarrelPressure
        32=InRange 33=Touch 34=Untouch 35=Tap 36=Quality 37=DataValid 38=TransducerIndex 39=TabletFunctionKeys
        3a=ProgramChangeKeys 3b=BatteryStrength 3c=Invert 3d=XTilt 3e=YTilt 3f=Azimuth 40=Altitude 41=Twist
        42=TipSwitch 43=SecondaryTipSwitch 44=BarrelSwitch 45=Eraser 46=TabletPick 47=TouchValid 48=Width
        49=Height 51=Contactidentifier 52=Devicemode 53=Deviceidentifier 54=Contactcount
        55=Contactcountmaximum 5a=SecondaryBarrelSwitch 5b=TransducerSerialNumber 5c=PreferredColor"""),
    0x0f: ("pid", """
        1=PhysicalInterfaceDevice 20=Normal 21=SetEffectReport 22=EffectBlockIndex 23=ParameterBlockOffset
        24=ROMFlag 25=EffectType 26=ETConstantForce 27=ETRamp 28=ETCustomForceData 30=ETSquare 31=ETSine
        32=ETTriangle 33=ETSawtoothUp 34=ETSawtoothDown 40=ETSpring 41=ETDamper 42=ETInertia 43=ETFriction
        50=Duration 51=SamplePeriod 52=Gain 53=TriggerButton 54=TriggerRepeatInterval 55=AxesEnable
        56=DirectionEnable 57=Direction 58=TypeSpecificBlockOffset 59=BlockType 5a=SetEnvelopeReport
        5b=AttackLevel 5c=AttackTime 5d=FadeLevel 5e=FadeTime 5f=SetConditionReport 60=CPOffset
        61=PositiveCoefficient 62=NegativeCoefficient 63=PositiveSaturation 64=NegativeSaturation 65=DeadBand
        66=DownloadForceSample 67=IsochCustomForceEnable 68=CustomForceDataReport 69=CustomForceData
        6a=CustomForceVendorDefinedData 6b=SetCustomForceReport 6c=CustomForceDataOffset 6d=SampleCount
        6e=SetPeriodicReport 6f=Offset 70=Magnitude 71=Phase 72=Period 73=SetConstantForceReport
        74=SetRampForceReport 75=RampStart 76=RampEnd 77=EffectOperationReport 78=EffectOperation
        79=OpEffectStart 7a=OpEffectStartSolo 7b=OpEffectStop 7c=LoopCount 7d=DeviceGainReport 7e=DeviceGain
        7f=PoolReport 80=RAMPoolSize 81=ROMPoolSize 82=ROMEffectBlockCount 83=SimultaneousEffectsMax
        84=PoolAlignment 85=PoolMoveReport 86=MoveSource 87=MoveDestination 88=MoveLength 89=BlockLoadReport
        8b=BlockLoadStatus 8c=BlockLoadSuccess 8d=BlockLoadFull 8e=BlockLoadError 8f=BlockHandle
        90=BlockFreeReport 91=TypeSpecificBlockHandle 92=StateReport 94=EffectPlaying 95=DeviceControlReport
        96=DeviceControl 97=DCEnableActuators 98=DCDisableActuators 99=DCStopAllEffects 9a=DCDeviceReset
        9b=DCDevicePause 9c=DCDeviceContinue 9f=DevicePaused a0=ActuatorsEnabled a4=SafetySwitch
        a5=ActuatorOverrideSwitch a6=ActuatorPower a7=StartDelay a8=ParameterBlockSize a9=DeviceManagedPool
        aa=SharedParameterBlocks ab=CreateNewEffectReport ac=RAMPoolAvailable"""),
    0x20: ("sensors", """
        1=Sensor 10=Biometric 11=BiometricHumanPresence 12=BiometricHumanProximity 13=BiometricHumanTouch
        20=Electrical 21=ElectricalCapacitance 22=ElectricalCurrent 23=ElectricalPower 24=ElectricalInductance
        25=ElectricalResistance 26=ElectricalVoltage 27=ElectricalPotentiometer 28=ElectricalFrequency
        29=ElectricalPeriod 30=Environmental 31=EnvironmentalAtmosphericPressure 32=EnvironmentalHumidity
        33=EnvironmentalTemperature 34=EnvironmentalWindDirection 35=EnvironmentalWindSpeed 40=Light
        41=LightAmbientLight 42=LightConsumerInfrared 50=Location 51=LocationBroadcast
        52=LocationDeadReckoning 53=LocationGPS 54=LocationLookup 55=LocationOther 56=LocationStatic
        57=LocationTriangulation 60=Mechanical 61=MechanicalBooleanSwitch 62=MechanicalBooleanSwitchArray
        63=MechanicalMultivalueSwitch 64=MechanicalForce 65=MechanicalPressure 66=MechanicalStrain
        67=MechanicalWeight 68=MechanicalHapticVibrator 69=MechanicalHallEffectSwitch 70=Motion
        71=MotionAccelerometer1D 72=MotionAccelerometer2D 73=MotionAccelerometer3D 74=MotionGyrometer1D
        75=MotionGyrometer2D 76=MotionGyrometer3D 77=MotionMotionDetector 78=MotionSpeedometer
        79=MotionAccelerometer 7a=MotionGyrometer 80=Orientation 81=OrientationCompass1D
        82=OrientationCompass2D 83=OrientationCompass3D 84=OrientationInclinometer1D
        85=OrientationInclinometer2D 86=OrientationInclinometer3D 87=OrientationDistance1D
        88=OrientationDistance2D 89=OrientationDistance3D 8a=OrientationDeviceOrientation
        8b=OrientationCompass 8c=OrientationInclinometer 8d=OrientationDistance 90=Scanner 91=ScannerBarcode
        92=ScannerRFID 93=ScannerNFC a0=Time a1=TimeAlarmTimer a2=TimeRealTimeClock e0=Other e1=OtherCustom
        e2=OtherGeneric e3=OtherGenericEnumerator 200=Event 201=EventSensorState 202=EventSensorEvent
        300=Property 301=PropertyFriendlyName 302=PropertyPersistentUniqueID 303=PropertySensorStatus
        304=PropertyMinimumReportInterval 305=PropertySensorManufacturer 306=PropertySensorModel
        307=PropertySensorSerialNumber 308=PropertySensorDescription 309=PropertySensorConnectionType
        30a=PropertySensorDevicePath 30b=PropertyHardwareRevision 30c=PropertyFirmwareVersion
        30d=PropertyReleaseDate 30e=PropertyReportInterval 30f=PropertyChangeSensitivityAbsolute
        310=PropertyChangeSensitivityPercentofRange 311=PropertyChangeSensitivityPercentRelative
        312=PropertyAccuracy 313=PropertyResolution 314=PropertyMaximum 315=PropertyMinimum
        316=PropertyReportingState 317=PropertySamplingRate 318=PropertyResponseCurve 319=PropertyPowerState
        400=DataFieldLocation 401=DataFieldLocationReserved 402=DataFieldAltitudeAntennaSeaLevel
        403=DataFieldDifferentialReferenceStationID 404=DataFieldAltitudeEllipsoidError
        405=DataFieldAltitudeEllipsoid 406=DataFieldAltitudeSeaLevelError 407=DataFieldAltitudeSeaLevel
        408=DataFieldDifferentialGPSDataAge 409=DataFieldErrorRadius 40a=DataFieldFixQuality
        40b=DataFieldFixType 40c=DataFieldGeoidalSeparation 40d=DataFieldGPSOperationMode
        40e=DataFieldGPSSelectionMode 800=SensorStateUndefined 801=SensorStateReady
        802=SensorStateNotAvailable 803=SensorStateNoData 804=SensorStateInitializing
        805=SensorStateAccessDenied 806=SensorStateError 810=SensorEventUnknown 811=SensorEventStateChanged
        812=SensorEventPropertyChanged 813=SensorEventDataUpdated 814=SensorEventPollResponse
        815=SensorEventChangeSensitivity 816=SensorEventRangeMaximumReached 817=SensorEventRangeMinimumReached
        818=SensorEventHighThresholdCrossUpward 819=SensorEventHighThresholdCrossDownward
        81a=SensorEventLowThresholdCrossUpward 81b=SensorEventLowThresholdCrossDownward
        81c=SensorEventZeroThresholdCrossUpward 81d=SensorEventZeroThresholdCrossDownward
        81e=SensorEventPeriodExceeded 81f=SensorEventFrequencyExceeded 820=SensorEventComplexTrigger
        830=ConnectionTypePCIntegrated 831=ConnectionTypePCAttached 832=ConnectionTypePCExternal
        840=ReportingStateReportNoEvents 841=ReportingStateReportAllEvents
        842=ReportingStateReportThresholdEvents 843=ReportingStateWakeOnNoEvents
        844=ReportingStateWakeOnAllEvents 845=ReportingStateWakeOnThresholdEvents 850=PowerStateUndefined
        851=PowerStateD0FullPower 852=PowerStateD1LowPower 853=PowerStateD2StandbyPowerwithWakeup
        854=PowerStateD3SleepwithWakeup 855=PowerStateD4PowerOff 870=FixQualityNoFix 871=FixQualityGPS
        872=FixQualityDGPS 880=FixTypeNoFix 881=FixTypeGPSSPSModeFixValid 882=FixTypeDGPSSPSModeFixValid
        883=FixTypeGPSPPSModeFixValid 884=FixTypeRealTimeKinematic 885=FixTypeFloatRTK 886=FixTypeEstimated
        887=FixTypeManualInputMode 888=FixTypeSimulatorMode 890=GPSOperationModeManual
        891=GPSOperationModeAutomatic 8a0=GPSSelectionModeAutonomous 8a1=GPSSelectionModeDGPS
        8a2=GPSSelectionModeEstimated 8a3=GPSSelectionModeManualInput"""),
    0x59: ("lighting", """
        1=LampArray 2=LampArrayAttributesReport 3=LampCount 4=BoundingBoxWidthInMicrometers
        5=BoundingBoxHeightInMicrometers 6=BoundingBoxDepthInMicrometers 7=LampArrayKind
        8=MinUpdateIntervalInMicroseconds 20=LampAttributesRequestReport 21=LampId
        22=LampAttributesResponseReport 23=PositionXInMicrometers 24=PositionYInMicrometers
        25=PositionZInMicrometers 26=LampPurposes 27=UpdateLatencyInMicroseconds 28=RedLevelCount
        29=GreenLevelCount 2a=BlueLevelCount 2b=IntensityLevelCount 2c=IsProgrammable 2d=InputBinding
        50=LampMultiUpdateReport 51=RedUpdateChannel 52=GreenUpdateChannel 53=BlueUpdateChannel
        54=IntensityUpdateChannel 55=LampUpdateFlags 60=LampRangeUpdateReport 61=LampIdStart 62=LampIdEnd
        70=LampArrayControlReport 71=AutonomousMode"""),
    0x90: ("camera", """
        20=Autofocus 21=Shutter"""),
}

# page -> names it goes by in comments
PAGE_NAMES = {
    0x01: ("GenericDesktop", "desktop"), 0x02: ("Simulation", "simulation"), 0x03: ("VR", "vr"),
    0x05: ("Game", "game"), 0x06: ("Device", "device"), 0x07: ("Keyboard", "keyboard"),
    0x08: ("Led", "led"), 0x09: ("Button", "button"), 0x0a: ("Ordinal", "ordinal"),
    0x0b: ("TelephonyDevice", "telephony"), 0x0c: ("Consumer", "consumer"),
    0x0d: ("Digitizers", "digitizers"), 0x0f: ("PID", "pid"), 0x20: ("Sensors", "sensors"),
    0x59: ("Lighting", "lighting"), 0x90: ("Camera", "camera"), 0xff00: ("Arcade", "arcade"),
}

NAMES = {}       # value -> "module.Name"
VALUES = {}      # "module.Name" -> value
BY_PAGE = {}
for _p, (_m, _t) in PAGES.items():
    for _e in _t.split():
        _v, _n = _e.split("=")
        _v = _p << 16 | int(_v, 16)
        NAMES[_v] = "%s.%s" % (_m, _n)
        VALUES["%s.%s" % (_m, _n)] = _v
        BY_PAGE.setdefault(_p, []).append(_v)
