"""Which obligations decide which property.

own      functions whose contract *is* the property (regular expressions on function keys)
kinds    which of their failed obligations break it ("faithful": what the function computes; "safe": that it
         cannot panic; "all")
clauses  only obligations whose failed clause matches (None: any)
but      no obligation whose failed clause matches
view     which clauses of the session's contract are generated (None: the session's body is not looked at)
lemmas   lemmas that state the property over those contracts
needs    further functions the argument rests on: they are counted, but a failure there is held against the property
         only together with a failing input
search   arguments of the concrete search
"""

DEC = r"protocol::.*::(convert_from_mqtt|try_from)$|protocol::parse_|protocol::.*::pktid$|protocol::.*::reason$|protocol::<VBI as |protocol::<u(32|size) as |protocol::.*(from|default)$|mqtt_codec::.*decode$"
WIRE = r"protocol::<(VBI|String|Vec<u8>|PktId) as FromMqttBytes>|protocol::<VBI as |protocol::<u(32|size) as |protocol::<(String|ConvertError|std::io::Error) as From"
ENCW = r"protocol::<(VBI|String|&str|&\[u8\]|PktId|Packet) as ToMqttBytes>"


def P(own, kinds="faithful", needs=(), lemmas=(), clauses=None, but=None, view=None):
    return dict(but=but, own=own, kinds=kinds, needs=list(needs), lemmas=list(lemmas), clauses=clauses, view=view)


CODEC = [DEC, ENCW, r"^mqtt_codec::", r"^protocol::"]
IDS = r"^pktids::|^no_free_pktid$"


def S(p, clauses, **k):
    """A property of the session: its monitor's clauses in the contract of `poll`."""
    k.setdefault("kinds", "all")
    k.setdefault("needs", CODEC + [IDS])
    k.setdefault("lemmas", ["incoming_"])
    return P([r"^poll$"], clauses=clauses, view=p, **k)


PROPS = {
    "P01": P([r"^protocol::<VBI as (FromMqttBytes|ToMqttBytes)>", r"^protocol::<u32 as From<VBI>>", r"^protocol::<VBI as From<u32>>"], kinds="all",
             needs=[r"^protocol::<VBI as ", r"^protocol::<u(32|size) as "]),
    "P02": P([DEC], kinds="safe"),
    "P03": P([r"^mqtt_codec::.*Decoder>::decode$"], kinds="faithful", needs=[DEC], lemmas=["framing_"]),
    "P04": P([r"^protocol::publish::<Publish as FromMqttBytes>", r"^protocol::publish::<PublishFlags as TryFrom", r"^protocol::publish::<Payload as From",
              r"^protocol::properties::<(Vec<Property>|Property) as FromMqttBytes>", r"^protocol::<(String|Vec<u8>) as FromMqttBytes>"],
             needs=[WIRE, r"^protocol::qos::<QoS as TryFrom", r"^protocol::parse_"]),
    "P05": P([r"^protocol::(puback|suback|unsuback)::.*convert_from_mqtt$", r"^protocol::(puback|suback|unsuback)::\w+::pktid$",
              r"^protocol::puback::properties::<PubackProperties as Default>", r"^protocol::<PktId as FromMqttBytes>"],
             needs=[WIRE, r"^protocol::(puback|suback|unsuback)::<\w+Reason as TryFrom", r"^protocol::parse_"]),
    "P06": P([r"^protocol::(connack|disconnect|pingresp)::.*convert_from_mqtt$", r"^protocol::connack::<ConnackFlags as TryFrom",
              r"^protocol::(connack::Connack|disconnect::Disconnect)::reason$", r"^protocol::parse_", r"^protocol::<PacketType as TryFrom"],
             needs=[WIRE, r"^protocol::(connack|disconnect)::<\w+Reason as TryFrom"]),
    "P07": P([r"^protocol::\w+::<(\w+Reason|QoS) as TryFrom<u8>>", r"^protocol::\w+::<u8 as From<"]),
    "P08": P([r"^protocol::publish::<Publish as ToMqttBytes>", r"^protocol::publish::<Payload as ToMqttBytes>", r"^protocol::publish::Publish::(at_\w+|exactly_once|new)$",
              r"^protocol::properties::<(&\[Property\]|Property) as ToMqttBytes>", r"^protocol::properties::Property::id$", r"^protocol::publish::<u8 as From<PublishFlags>>",
              r"^protocol::<(String|&str|&\[u8\]) as ToMqttBytes>"], kinds="all",
             needs=[ENCW, r"^mqtt_codec::.*encode$"]),
    "P09": P([r"^protocol::(connect|subscribe|unsubscribe|pingreq|puback|disconnect)::.*(convert_to_mqtt|::new|::keep_alive|::options|::default)$", r"^protocol::<Packet as ToMqttBytes>",
              r"^protocol::(qos::<u8 as From<QoS>>|puback::<u8 as From|disconnect::<u8 as From)", r"^protocol::<PktId as ToMqttBytes>", r"^protocol::disconnect::properties::DisconnectProperty::id$"], kinds="all",
             needs=[ENCW, r"^mqtt_codec::.*encode$"]),
    "P10": P([], needs=[r"^protocol::publish::<Publish as (To|From)MqttBytes>", r"^protocol::publish::(<Payload as |<PublishFlags as TryFrom|<u8 as From<PublishFlags>>)",
              r"^protocol::properties::<", r"^mqtt_codec::", WIRE, ENCW, r"^protocol::qos::<", r"^protocol::parse_", r"^protocol::<PacketType as TryFrom"],
             lemmas=["roundtrip_", "be", "bin_inv", "pvs_front", "props_all_inv", "first_inv", "body_inv", "message_ok"]),
    "P11": P([r"^mqtt_codec::.*Encoder<Packet>>::encode$", r"^client::check_len$", r"^protocol::properties::Property::fits_len_prefix$", r"^client::PublishBuilder::build$",
              r"^client::PublishBuilder::(with_property|from_bytes|from_str|qos)$"], kinds="all", but=r"r\.(topic|payload|properties)|Some\(qos\)",
             needs=[ENCW, r"^client::Client::(subscribe|publish|unsubscribe)$", r"^protocol::(publish|connect|subscribe|unsubscribe)::.*convert_to_mqtt$"]),
    "P12": P([r"^pktids::"], kinds="all"),
    "P13": S("P13", r"\bp13_"),
    "P14": S("P14", r"\bp14_"),
    "P15": S("P15", r"\bp15_|valid_outgoing"),
    "P16": S("P16", r"\bp16_"),
    "P17": S("P17", r"\bp17_"),
    "P18": S("P18", r"\bp18_"),
    "P19": S("P19", r"\bp19_"),
    "P23": S("P23", r"\bp23_"),
    "P20": P([r"^poll$", r"^no_free_pktid$", r"^pktids::PktIds::(new|next_id|return_id|new_with_max)$"], kinds="safe", needs=CODEC + [IDS], view="P20",
             but=r"valid_outgoing|Recv\(None\)"),
    "P21": P([r"^client::(?!Client::new$)"], kinds="all", needs=[r"^protocol::properties::Property::fits_len_prefix$"]),
    "P22": P([r"^poll$"], kinds="all", clauses=r"\bp22_|contains\(", view="P20"),
    "P24": P([r"^<EventLoop", r"^<MQTTFuture", r"^client::Client::new$"], kinds="all"),
}
