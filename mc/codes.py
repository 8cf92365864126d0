"""Reference tables of the format's codes, written from the published BLF definitions (binlog_objects: object types,
application ids, bus types, text sources, variable types, trigger states; flag bits of CAN FD objects)."""

_TYPES = """UNKNOWN CAN_MESSAGE CAN_ERROR CAN_OVERLOAD CAN_STATISTIC APP_TRIGGER ENV_INTEGER ENV_DOUBLE ENV_STRING ENV_DATA LOG_CONTAINER
LIN_MESSAGE LIN_CRC_ERROR LIN_DLC_INFO LIN_RCV_ERROR LIN_SND_ERROR LIN_SLV_TIMEOUT LIN_SCHED_MODCH LIN_SYN_ERROR LIN_BAUDRATE LIN_SLEEP
LIN_WAKEUP MOST_SPY MOST_CTRL MOST_LIGHTLOCK MOST_STATISTIC - - - FLEXRAY_DATA FLEXRAY_SYNC CAN_DRIVER_ERROR MOST_PKT MOST_PKT2 MOST_HWMODE
MOST_REG MOST_GENREG MOST_NETSTATE MOST_DATALOST MOST_TRIGGER FLEXRAY_CYCLE FLEXRAY_MESSAGE LIN_CHECKSUM_INFO LIN_SPIKE_EVENT CAN_DRIVER_SYNC
FLEXRAY_STATUS GPS_EVENT FR_ERROR FR_STATUS FR_STARTCYCLE FR_RCVMESSAGE REALTIMECLOCK - - LIN_STATISTIC J1708_MESSAGE J1708_VIRTUAL_MSG
LIN_MESSAGE2 LIN_SND_ERROR2 LIN_SYN_ERROR2 LIN_CRC_ERROR2 LIN_RCV_ERROR2 LIN_WAKEUP2 LIN_SPIKE_EVENT2 LIN_LONG_DOM_SIG APP_TEXT
FR_RCVMESSAGE_EX MOST_STATISTICEX MOST_TXLIGHT MOST_ALLOCTAB MOST_STRESS ETHERNET_FRAME SYS_VARIABLE CAN_ERROR_EXT CAN_DRIVER_ERROR_EXT
LIN_LONG_DOM_SIG2 MOST_150_MESSAGE MOST_150_PKT MOST_ETHERNET_PKT MOST_150_MESSAGE_FRAGMENT MOST_150_PKT_FRAGMENT MOST_ETHERNET_PKT_FRAGMENT
MOST_SYSTEM_EVENT MOST_150_ALLOCTAB MOST_50_MESSAGE MOST_50_PKT CAN_MESSAGE2 LIN_UNEXPECTED_WAKEUP LIN_SHORT_OR_SLOW_RESPONSE
LIN_DISTURBANCE_EVENT SERIAL_EVENT OVERRUN_ERROR EVENT_COMMENT WLAN_FRAME WLAN_STATISTIC MOST_ECL GLOBAL_MARKER AFDX_FRAME AFDX_STATISTIC
KLINE_STATUSEVENT CAN_FD_MESSAGE CAN_FD_MESSAGE_64 ETHERNET_RX_ERROR ETHERNET_STATUS CAN_FD_ERROR_64 LIN_SHORT_OR_SLOW_RESPONSE2 AFDX_STATUS
AFDX_BUS_STATISTIC - AFDX_ERROR_EVENT A429_ERROR A429_STATUS A429_BUS_STATISTIC A429_MESSAGE ETHERNET_STATISTIC - - - TEST_STRUCTURE
DIAG_REQUEST_INTERPRETATION ETHERNET_FRAME_EX ETHERNET_FRAME_FORWARDED ETHERNET_ERROR_EX ETHERNET_ERROR_FORWARDED FUNCTION_BUS DATA_LOST_BEGIN
DATA_LOST_END WATER_MARK_EVENT TRIGGER_CONDITION""".split()

ENUMS = {
    "ObjType": {n: i for i, n in enumerate(_TYPES) if n != "-"},
    "AppId": {"UNKNOWN": 0, "CANALYZER": 1, "CANOE": 2, "CANSTRESS": 3, "CANLOG": 4, "CANAPE": 5, "CANCASEXLLOG": 6, "VLCONFIG": 7, "PORSCHELOGGER": 200},
    "Compression": {"NONE": 0, "SPEED": 1, "DEFAULT": 6, "MAX": 9},
    "SysVarType": {"DOUBLE": 1, "LONG": 2, "STRING": 3, "DOUBLEARRAY": 4, "LONGARRAY": 5, "LONGLONG": 6, "BYTEARRAY": 7},
    "BusType": {"CAN": 1, "LIN": 5, "MOST": 6, "FLEXRAY": 7, "J1708": 9, "ETHERNET": 10, "WLAN": 13, "AFDX": 14},
    "AppTextSource": {"MEASUREMENTCOMMENT": 0, "DBCHANNELINFO": 1, "METADATA": 2, "ATTACHMENT": 3, "TRACELINE": 4},
    "FunctionBusType": {"UNDEFINED": 0, "SIGNAL": 1, "SERVICE_FUNCTION": 2, "STATE": 3},
    "TriggerConditionStatus": {"UNKNOWN": 0, "START": 1, "STOP": 2, "STARTSTOP": 3},
}
FLAGS = {
    "ObjFlags": {"TIME_TEN_MICS": 1, "TIME_ONE_NANS": 2},
    "TriggerFlag": {"SINGLE_TRIGGER": 0, "LOGGING_START": 1, "LOGGING_STOP": 2},
    "CanFdFlags": {"NERR": 0x4, "HIGH_VOLTAGE_WAKE_UP": 0x8, "REMOTE_FRAME": 0x10, "TX_ACKNOWLEDGE": 0x40, "TX_REQUEST": 0x80, "SRR": 0x200, "R0": 0x400, "R1": 0x800,
                   "FDF": 0x1000, "BRS": 0x2000, "ESI": 0x4000, "FRAME_PART_OF_BURST": 0x20000, "SINGLE_SHOT_MODE_NOT_TRANSMITTED": 0x40000,
                   "SINGLE_SHOT_MODE_REASON": 0x80000},
}
# the object type each class is created for by its convenience constructor or named after
SIGNATURES = {"FILE_SIGNATURE": b"LOGG", "OBJ_SIGNATURE": b"LOBJ"}
