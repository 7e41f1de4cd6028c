"""Metadata parser used by the scenarios (its source text is what a client sends to a server)."""
from typing import Any, List, Optional  # noqa: F401

from mixtera.core.datacollection.index.parser import MetadataParser
from mixtera.core.datacollection.index.parser.metadata_parser import MetadataProperty


class VParser(MetadataParser):
    @classmethod
    def get_properties(cls):
        return [
            MetadataProperty(name="lang", dtype="STRING", multiple=False, nullable=False, enum_options=set()),
            MetadataProperty(name="lic", dtype="STRING", multiple=False, nullable=True, enum_options=set()),
            MetadataProperty(name="topic", dtype="STRING", multiple=True, nullable=True, enum_options=set()),
        ]

    def parse(self, line_number, payload, **kwargs):
        p = payload
        if isinstance(payload, dict):
            p = payload.get(".json", payload.get("json", payload))
        if isinstance(p, (bytes, str)):
            import json

            p = json.loads(p)
        kw = {"lang": p["lang"], "lic": p.get("lic")}
        if p.get("topic") is not None:
            kw["topic"] = p["topic"]
        self.add_metadata(sample_id=line_number, **kw)


class WParser(MetadataParser):
    """Shares one property with VParser and adds enumerations."""

    @classmethod
    def get_properties(cls):
        return [
            MetadataProperty(name="lang", dtype="STRING", multiple=False, nullable=False, enum_options=set()),
            MetadataProperty(name="tier", dtype="ENUM", multiple=False, nullable=True, enum_options={"silver", "gold", "lead"}),
            MetadataProperty(name="tags", dtype="ENUM", multiple=True, nullable=True, enum_options={"z", "y", "x", "w", "v"}),
        ]

    def parse(self, line_number, payload, **kwargs):
        p = payload
        if isinstance(payload, dict):
            p = payload.get(".json", payload.get("json", payload))
        if isinstance(p, (bytes, str)):
            import json

            p = json.loads(p)
        kw = {"lang": p["lang"]}
        if p.get("lic") is not None:
            kw["tier"] = {"mit": "silver", "apache": "gold"}[p["lic"]]
        if p.get("topic") is not None:
            kw["tags"] = p["topic"]
        self.add_metadata(sample_id=line_number, **kw)
